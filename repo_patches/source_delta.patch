From 96918b9dc5eddb2176fea4a0f3fb9d11fc19fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 01/59] fix: obs2 epoch times in strict mode with interval;
 grow undersized speculative allocation

---
 src/georinex/obs2.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 292db34..d4db293 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -169,13 +169,13 @@ def rinexsystem2(
             if verbose:
                 print(time_epoch, end="\r")
 
-            if fast:
-                try:
-                    times[j] = time_epoch
-                except IndexError as e:
-                    raise IndexError(
-                        f'may be "fast" mode bug, try fast=False or "-strict" command-line option {e}'
-                    )
+            if j == times.size:  # speculative preallocation was too small
+                times = np.concatenate((times, np.empty(j + 1, dtype=times.dtype)))
+                grown = np.full((data.shape[0], times.size, data.shape[2]), np.nan)
+                grown[:, :j, :] = data
+                data = grown
+
+            times[j] = time_epoch
             # %% Does anyone need this?
             #            try:
             #                toffset = ln[68:80]
@@ -252,7 +252,9 @@ def rinexsystem2(
                 else:
                     data[i, j, isv] = darr[:, k]
     # %% output gathering
-    data = data[:, : times.size, :]  # trims down for unneeded preallocated
+    # trims down for unneeded preallocated
+    times = times[: j + 1].astype("datetime64[ns]")
+    data = data[:, : j + 1, :]
 
     fields = []
     for field in hdr["fields"]:
@@ -343,9 +345,8 @@ def _num_times(
         """
         t = obstime2(fn, verbose=verbose)  # < 10 ms for 24 hour 15 second cadence
         if tlim is not None:
-            times = t[(tlim[0] <= t) & (t <= tlim[1])]
-        else:
-            times = t
+            t = t[(tlim[0] <= t) & (t <= tlim[1])]
+        times = np.empty(t.size, dtype=datetime)
 
     return times
 
-- 
2.43.0


From 5edfc7a0ae7a7bca89d66158a21cf02a1965193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 02/59] fix: obs2 IndexError for SBAS and BeiDou satellite
 numbers above 36

---
 src/georinex/obs2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index d4db293..3bbc308 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -104,10 +104,11 @@ def rinexsystem2(
     Nsvsys may need updating as GNSS systems grow.
     Let us know if you needed to change them.
 
-    Beidou is 35 max
+    Beidou is 63 max
     Galileo is 36 max
+    SBAS PRN is stored minus 100, 20..58 at present
     """
-    Nsvsys = 36
+    Nsvsys = {"C": 63, "S": 99}.get(system, 36)
 
     hdr = obsheader2(fn, useindicators, meas)
 
-- 
2.43.0


From 862b756e888d70e5ae11ba9b4aa7926e54534c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 03/59] fix: blank satellite system is GPS in RINEX 2 OBS;
 SBAS-only OBS files

---
 src/georinex/common.py | 2 +-
 src/georinex/obs2.py   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 97bc0af..d07585b 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -52,7 +52,7 @@ def determine_time_system(header: dict[T.Hashable, T.Any]) -> str:
     except KeyError:
         file_type = header["systems"]
 
-    if file_type == "G":
+    if file_type in {"G", "S", " "}:  # blank is GPS; SBAS observations use GPS time
         ts = "GPS"
     elif file_type == "R":
         ts = "GLO"
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 3bbc308..931ea75 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -396,6 +396,8 @@ def obsheader2(
         hdr["systems"] = hdr["RINEX VERSION / TYPE"][40]
     except KeyError:
         pass
+    if hdr["systems"] == " ":  # RINEX 2: blank is GPS
+        hdr["systems"] = "G"
 
     hdr["Nobs"] = Nobs
     # 5 observations per line (incorporating LLI, SSI)
-- 
2.43.0


From 8f47c70ada3ccc6cf7c2d69c9bd318385f372a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 04/59] fix: fractional seconds of epochs were truncated below
 the written value

---
 src/georinex/common.py |  5 +++++
 src/georinex/nav2.py   |  4 ++--
 src/georinex/obs2.py   | 12 +++++++++---
 src/georinex/obs3.py   | 11 ++++++++---
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index d07585b..c3e2fa6 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -27,6 +27,11 @@ def rinex_string_to_float(s: str) -> float:
     return float(s.replace("D", "E"))
 
 
+def fractional_microseconds(s: str) -> int:
+    """microseconds of the fractional part of seconds, without binary truncation e.g. of 10.2"""
+    return min(round(float(s) % 1 * 1000000), 999999)
+
+
 def check_ram(memneed: int, fn: T.TextIO | Path):
     if psutil is None:
         return
diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index de985d8..b969ed6 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -7,7 +7,7 @@ import numpy as np
 import logging
 
 from .rio import opener, rinexinfo
-from .common import rinex_string_to_float
+from .common import rinex_string_to_float, fractional_microseconds
 
 #
 STARTCOL2 = 3  # column where numerical data starts for RINEX 2
@@ -246,7 +246,7 @@ def _timenav(ln: str) -> datetime:
         hour=int(ln[12:14]),
         minute=int(ln[15:17]),
         second=int(float(ln[17:20])),
-        microsecond=int(float(ln[17:22]) % 1 * 1000000),
+        microsecond=fractional_microseconds(ln[17:22]),
     )
 
 
diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 931ea75..6e9688a 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -15,7 +15,13 @@ except ImportError:
     ecef2geodetic = None
 
 from .rio import opener, rinexinfo
-from .common import determine_time_system, check_ram, check_time_interval, check_unique_times
+from .common import (
+    determine_time_system,
+    check_ram,
+    check_time_interval,
+    check_unique_times,
+    fractional_microseconds,
+)
 
 __all__ = ["rinexobs2", "rinexsystem2", "obsheader2", "obstime2"]
 
@@ -555,7 +561,7 @@ def _timehdr(ln: str) -> datetime:
         second = 0
 
     try:
-        usec = int(float(ln[30:43]) % 1 * 1000000)
+        usec = fractional_microseconds(ln[30:43])
     except ValueError:
         usec = 0
 
@@ -581,7 +587,7 @@ def _timeobs(ln: str) -> datetime:
         year += 1900
 
     try:
-        usec = int(float(ln[16:26]) % 1 * 1000000)
+        usec = fractional_microseconds(ln[16:26])
     except ValueError:
         usec = 0
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a68dc21..eba7fe6 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -13,7 +13,12 @@ except ImportError:
     ecef2geodetic = None
 #
 from .rio import opener, rinexinfo
-from .common import determine_time_system, check_time_interval, check_unique_times
+from .common import (
+    determine_time_system,
+    check_time_interval,
+    check_unique_times,
+    fractional_microseconds,
+)
 
 """https://github.com/mvglasow/satstat/wiki/NMEA-IDs"""
 
@@ -179,7 +184,7 @@ def _timeobs(ln: str) -> datetime:
         hour=int(ln[13:15]),
         minute=int(ln[16:18]),
         second=int(ln[19:21]),
-        microsecond=int(float(ln[19:29]) % 1 * 1000000),
+        microsecond=fractional_microseconds(ln[19:29]),
     )
 
 
@@ -337,7 +342,7 @@ def obsheader3(
             hour=int(t0s[18:24]),
             minute=int(t0s[24:30]),
             second=int(float(t0s[30:36])),
-            microsecond=int(float(t0s[30:43]) % 1 * 1000000),
+            microsecond=fractional_microseconds(t0s[30:43]),
         )
     except (KeyError, ValueError):
         pass
-- 
2.43.0


From d535d5b0eb9ac5932a3833062cedd4e78862d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:53 +0000
Subject: [PATCH 05/59] fix: loss-of-lock indicators of phases on bands other
 than 1, 2 (RINEX 3) and 1, 2, 5 (RINEX 2)

---
 src/georinex/obs2.py | 4 ++--
 src/georinex/obs3.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 6e9688a..0f1c090 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -267,8 +267,8 @@ def rinexsystem2(
     for field in hdr["fields"]:
         fields.append(field)
         if useindicators:
-            if field not in {"S1", "S2", "S5"}:
-                if field in {"L1", "L2", "L5"}:
+            if not field.startswith("S"):
+                if field.startswith("L"):
                     fields.append(f"{field}lli")
                 else:
                     fields.append(None)
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index eba7fe6..7193e4f 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -265,7 +265,7 @@ def _indicators(d: dict, k: str, arr: np.ndarray) -> dict[str, tuple]:
     """
     handle LLI (loss of lock) and SSI (signal strength)
     """
-    if k.startswith(("L1", "L2")):
+    if k.startswith("L"):
         d[k + "lli"] = (("time", "sv"), np.atleast_2d(arr[:, 0]))
 
     d[k + "ssi"] = (("time", "sv"), np.atleast_2d(arr[:, 1]))
-- 
2.43.0


From 10f16624ee526b1d53ec99d7c3856181034ff34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 06/59] fix: obs2 interval derived from the last system read
 instead of from all epochs

---
 src/georinex/obs2.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 0f1c090..82265dc 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -63,6 +63,10 @@ def rinexobs2(
             attrs = o.attrs
             obs = xarray.merge((obs, o))
 
+    if attrs and "interval" not in obsheader2(fn):
+        # spacing of all epochs, not of those of the last system read
+        attrs["interval"] = _median_interval(obs)
+
     obs.attrs = attrs
 
     return obs
@@ -297,9 +301,8 @@ def rinexsystem2(
     if "interval" in hdr.keys():
         obs.attrs["interval"] = hdr["interval"]
     elif "time" in obs.coords.keys():
-        # median is robust against gaps
         try:
-            obs.attrs["interval"] = np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
+            obs.attrs["interval"] = _median_interval(obs)
         except TypeError:
             pass
     else:
@@ -321,6 +324,11 @@ def rinexsystem2(
     return obs
 
 
+def _median_interval(obs: xarray.Dataset) -> float:
+    # median is robust against gaps
+    return np.median(np.diff(obs.time) / np.timedelta64(1, "s"))
+
+
 def _num_times(
     fn: T.TextIO | Path, Nextra: int, tlim: tuple[datetime, datetime] | None, verbose: bool
 ):
-- 
2.43.0


From e1153a142d29a04b3adbffd46333e1b58620d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 07/59] fix: obs3 epochs of 100 and more satellites

---
 src/georinex/obs3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 7193e4f..d7f0aea 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -103,7 +103,7 @@ def rinexobs3(
             sv = []
             raw = ""
             # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[33:35])):
+            for _ in range(int(ln[32:35])):
                 ln = f.readline()
                 sv.append(ln[:3])
                 raw += ln[3:]
-- 
2.43.0


From 5c0e4c2024d4a093da19065ac73b2c555b005bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 08/59] fix: obs3 time_offset only of the epochs that are
 loaded

---
 src/georinex/obs3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index d7f0aea..a2f4290 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -95,10 +95,7 @@ def rinexobs3(
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
 
-            try:
-                time_offset.append(float(ln[41:56]))
-            except ValueError:
-                pass
+            offset = ln[41:56]
             # %% get SV indices
             sv = []
             raw = ""
@@ -123,6 +120,11 @@ def rinexobs3(
                     else:
                         last_epoch += interval
 
+            try:
+                time_offset.append(float(offset))
+            except ValueError:
+                pass
+
             if verbose:
                 print(time, end="\r")
 
-- 
2.43.0


From 375194a33d724900ad3225ae6bf306d6fd9c1d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 09/59] fix: obs3 stopped reading at the first line that is not
 an epoch

---
 src/georinex/obs3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index a2f4290..b4af792 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -86,8 +86,8 @@ def rinexobs3(
         # %% process OBS file
         time_offset = []
         for ln in f:
-            if not ln.startswith(">"):  # end of file
-                break
+            if not ln.startswith(">"):  # not an epoch
+                continue
 
             try:
                 time = _timeobs(ln)
-- 
2.43.0


From 77cddb00e9820e0df5ee752382ff67b30e1fc759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 10/59] fix: obs3 event records (epoch flags 2-5) were read as
 satellites

---
 src/georinex/obs3.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index b4af792..b9251bf 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -89,6 +89,9 @@ def rinexobs3(
             if not ln.startswith(">"):  # not an epoch
                 continue
 
+            if _skip_event(f, ln):
+                continue
+
             try:
                 time = _timeobs(ln)
             except ValueError:  # garbage between header and RINEX data
@@ -190,6 +193,23 @@ def _timeobs(ln: str) -> datetime:
     )
 
 
+def _skip_event(f: T.TextIO, ln: str) -> bool:
+    """
+    epoch flags 2..5 are events: the lines that follow are not satellites
+    """
+    if ln[31:32] not in {"2", "3", "4", "5"}:
+        return False
+
+    try:
+        Nskip = int(ln[32:35])
+    except ValueError:
+        Nskip = 0
+    for _ in range(Nskip):
+        f.readline()
+
+    return True
+
+
 def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     """
     return all times in RINEX file
@@ -200,6 +220,8 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     with opener(fn) as f:
         for ln in f:
             if ln.startswith("> "):
+                if _skip_event(f, ln):
+                    continue
                 try:
                     times.append(_timeobs(ln))
                 except (ValueError, IndexError):
-- 
2.43.0


From 562d953b48487cf78f15703599eb1c04fb0e2968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 11/59] fix: nav2 blank field of a record made the file
 unreadable

---
 src/georinex/nav2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index b969ed6..dec2a9c 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -171,10 +171,10 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             it = np.nonzero(timesu == times[i])[0][0]  # int by defn
             """
             some files sometimes drop the last measurement, this fixes that.
-            It assumes the blank is always in the last measurement for now.
+            Blank fields are NaN.
             """
             dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf])
+                float(raws[i][k * Lf : (k + 1) * Lf].strip() or np.nan)
                 for k in range(min(len(fields), len(raws[i]) // Lf))
             ]
             data[: len(dvec), it, j] = dvec
-- 
2.43.0


From d7b067d240098bc937d042886039d7f83ee742bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 12/59] fix: nav2 one unreadable record made the whole file
 unreadable

---
 src/georinex/nav2.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index dec2a9c..5d5a646 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -173,10 +173,14 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             some files sometimes drop the last measurement, this fixes that.
             Blank fields are NaN.
             """
-            dvec = [
-                float(raws[i][k * Lf : (k + 1) * Lf].strip() or np.nan)
-                for k in range(min(len(fields), len(raws[i]) // Lf))
-            ]
+            try:
+                dvec = [
+                    float(raws[i][k * Lf : (k + 1) * Lf].strip() or np.nan)
+                    for k in range(min(len(fields), len(raws[i]) // Lf))
+                ]
+            except ValueError:
+                logging.info(f"malformed line for {sv}")
+                continue
             data[: len(dvec), it, j] = dvec
 
     # %% assemble output
-- 
2.43.0


From 4e4ab15e85372d0d2e0b7531450328372aa4943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 13/59] fix: nav3 records were read with the layout of the
 satellite's first record

---
 src/georinex/nav3.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index aa936f8..f750356 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -95,21 +95,28 @@ def rinexnav3(
             duplicate = tu.size != t[svi][check].size
 
             full_fields = fields[sv[0]]
-            compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[svi[0]]))
-            compact_index = [i for i, c in enumerate(full_fields) if c in compact_fields]
-
             darr = np.empty((svi.size, len(full_fields)))
             darr.fill(np.nan)
 
+            rows = {}
             for j, i in enumerate(svi):
                 try:
-                    darr[j, compact_index] = [
+                    # each record may have or omit the spare fields
+                    compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[i]))
+                    compact_index = [k for k, c in enumerate(full_fields) if c in compact_fields]
+                    rows[j] = compact_index, [
                         float(raws[i][LF * k : LF * (k + 1)].strip() or 0)
                         for k in range(len(compact_index))
                     ]
                 except ValueError:
                     logging.info(f"malformed line for {sv}")
 
+            # missing fields, that other records of this SV have, are zero
+            present = sorted({k for compact_index, _ in rows.values() for k in compact_index})
+            for j, (compact_index, values) in rows.items():
+                darr[j, present] = 0
+                darr[j, compact_index] = values
+
             # %% discard duplicated times
             darr = darr[check, :][iu, :]
 
-- 
2.43.0


From 9f8a506a26e502c9a137e6596ba69839a3e5c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 14/59] fix: nav3 stopped reading at the first blank line

---
 src/georinex/nav3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index f750356..a01a0c4 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -39,9 +39,6 @@ def rinexnav3(
         header = navheader3(f)
         # %% read Epoch / ToC (Time of Clock)
         for line in f:
-            if line.startswith("\n"):  # EOF
-                break
-
             try:
                 time = _time(line)
             except ValueError:  # blank or garbage line
-- 
2.43.0


From 9b8a319a303277e4a5f1805bf2e8c18fb334daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 15/59] fix: sp3 records were assigned by position instead of
 satellite, missing ones were uninitialized memory

---
 src/georinex/sp3.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 6408077..9f72fce 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -63,10 +63,10 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
         ecefs = []
         clocks = []
         vels = []
-        ecef = np.empty((Nsv, 3))
-        clock = np.empty((Nsv, 2))
-        vel = np.empty((Nsv, 3))
-        i = 0
+        # NaN where the file has no record
+        ecef = np.full((Nsv, 3), np.nan)
+        clock = np.full((Nsv, 2), np.nan)
+        vel = np.full((Nsv, 3), np.nan)
 
         times = [sp3dt(ln)]
 
@@ -77,22 +77,24 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
                 clocks.append(clock)
                 vels.append(vel)
 
-                ecef = np.empty((Nsv, 3))
-                clock = np.empty((Nsv, 2))  # clock and clock rate-of-change
-
-                vel = np.empty((Nsv, 3))
-                vel.fill(np.nan)  # may not always have velocity
-
-                i = 0
+                ecef = np.full((Nsv, 3), np.nan)
+                clock = np.full((Nsv, 2), np.nan)  # clock and clock rate-of-change
+                vel = np.full((Nsv, 3), np.nan)  # may not always have velocity
                 continue
 
+            if ln[0] in {"P", "V"}:
+                sv = ln[1:4].replace(" ", "")
+                if sv not in svs:
+                    logging.info(f"satellite {sv} is not in the header")
+                    continue
+                i = svs.index(sv)
+
             if ln[0] == "P":
                 ecef[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
                 clock[i, 0] = float(ln[46:60])
-                i += 1
             elif ln[0] == "V":
-                vel[i - 1, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
-                clock[i - 1, 1] = float(ln[46:60])
+                vel[i, :] = (float(ln[4:18]), float(ln[18:32]), float(ln[32:46]))
+                clock[i, 1] = float(ln[46:60])
             elif ln.startswith(("EP", "EV")):
                 # let us know if you want these data types
                 pass
-- 
2.43.0


From f9be69075704b3d42952738153b867f92e809561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 16/59] fix: time limits given as strings were compared as text

---
 src/georinex/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 60f079a..2daa90f 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -56,6 +56,7 @@ def load(
     if tlim is not None:
         if len(tlim) != 2:
             raise ValueError("time bounds are specified as start stop")
+        tlim = _tlim(tlim)  # compare times, not strings
         if tlim[1] < tlim[0]:
             raise ValueError("stop time must be after start time")
 
-- 
2.43.0


From cc048996fe6fcd760307c75f114ca448fc7e9a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 17/59] fix: NetCDF file with OBS and NAV could not be loaded

---
 src/georinex/rio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index cae2bde..e22f7ab 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -145,14 +145,16 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
-            attrs: dict[T.Hashable, T.Any] = {"rinextype": []}
+            attrs: dict[T.Hashable, T.Any] = {}
+            groups = []
             for g in ("OBS", "NAV"):
                 try:
                     dat = xarray.open_dataset(fn, group=g)
-                    attrs["rinextype"].append(g.lower())
                 except OSError:
                     continue
+                groups.append(g.lower())
                 attrs.update(dat.attrs)
+            attrs["rinextype"] = groups[0] if len(groups) == 1 else groups
             return attrs
 
         with opener(fn, header=True) as f:
-- 
2.43.0


From da4c311b5266fe2ba1b9335dc4bace0931a21615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 18/59] fix: compressed files with non-ASCII bytes could not be
 read, unlike plain ones

---
 src/georinex/rio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index e22f7ab..056e3e3 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -50,7 +50,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
         suffix = fn.suffix.lower()
 
         if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
-            with gzip.open(fn, "rt") as f:
+            with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -66,7 +66,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
-            with bz2.open(fn, "rt") as f:
+            with bz2.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
 
@@ -90,7 +90,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                 raise ImportError("ncompress unlzw not available")
 
             with fn.open("rb") as zu:
-                with io.StringIO(unlzw(zu.read()).decode("ascii")) as f:
+                with io.StringIO(unlzw(zu.read()).decode("ascii", errors="ignore")) as f:
                     _, is_crinex = rinex_version(first_nonblank_line(f))
                     f.seek(0)
 
-- 
2.43.0


From 5b25cc840be763095bb3097f3eae07417cbf67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 19/59] fix: too short first line raised IndexError instead of
 ValueError

---
 src/georinex/rio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 056e3e3..11987fe 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -196,7 +196,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             "systems": system,
         }
 
-    except (TypeError, AttributeError, ValueError) as e:
+    except (TypeError, AttributeError, ValueError, IndexError) as e:
         # keep ValueError for consistent user error handling
         raise ValueError(f"not a known/valid RINEX file.  {e}")
 
-- 
2.43.0


From 3e56bfc31d2afef5fa502f2363dac9615c33af64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 20/59] fix: Hatanaka compressed data in zip files and StringIO
 was read as empty

---
 src/georinex/rio.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 11987fe..4941a57 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -32,7 +32,13 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
 
     if isinstance(fn, io.StringIO):
         fn.seek(0)
-        yield fn
+        f = fn
+        if not header:
+            _, is_crinex = rinex_version(first_nonblank_line(f))
+            f.seek(0)
+            if is_crinex:
+                f = io.StringIO(crx2rnx(f.read()))
+        yield f
     elif isinstance(fn, Path):
         # need to have this check for Windows
         if not fn.is_file():
@@ -84,6 +90,14 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                         f = io.StringIO(
                             io.TextIOWrapper(bf, encoding="ascii", errors="ignore").read()  # type: ignore
                         )
+                        _, is_crinex = rinex_version(first_nonblank_line(f))
+                        f.seek(0)
+
+                        if is_crinex and not header:
+                            """
+                            zip compressed CRINEX
+                            """
+                            f = io.StringIO(crx2rnx(f.read()))
                         yield f
         elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
             if unlzw is None:
-- 
2.43.0


From 1656f034ce5ea436f3f7ae829b45f50012e9b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 21/59] fix: blank compressed file raised AttributeError
 instead of ValueError

---
 src/georinex/rio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 4941a57..1b569e2 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -147,7 +147,7 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
             break
 
     if _i is None or _i == max_lines - 1 or not line:
-        raise ValueError(f"could not find first valid header line in {f.name}")
+        raise ValueError(f"could not find first valid header line in {getattr(f, 'name', f)}")
 
     return line
 
-- 
2.43.0


From 9d28a2706f73c169fd3914fd00e67603223264f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 22/59] fix: obs3 times took header lines for epochs

---
 src/georinex/obs3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index b9251bf..c63dd4b 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -218,6 +218,10 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
     times = []
 
     with opener(fn) as f:
+        for ln in f:  # skip header
+            if "END OF HEADER" in ln:
+                break
+
         for ln in f:
             if ln.startswith("> "):
                 if _skip_event(f, ln):
-- 
2.43.0


From 1087b931c7fde16a1226a2c8655afd5fd28bebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 23/59] fix: nav2 KeyError in the message for unhandled file
 types

---
 src/georinex/nav2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 5d5a646..ce00b6f 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -121,7 +121,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
                 "TransTime",
             ]
         else:
-            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["sys"]}  {fn}')
+            raise NotImplementedError(f'I do not yet handle Rinex 2 NAV {header["filetype"]}  {fn}')
         # %% loop over times
         for ln in f:
             # %% read Epoch / ToC (Time of Clock)
-- 
2.43.0


From 7fe6289db3fc60e3d8ba8fb37fdda24b67fb0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 24/59] fix: batch conversion stopped at files that are damaged
 or lack the requested systems

---
 src/georinex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 2daa90f..37a37ea 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -134,8 +134,8 @@ def batch_convert(
                 verbose=verbose,
                 fast=fast,
             )
-        except ValueError as e:
-            logging.error(f"{fn.name}: {e}")
+        except Exception as e:  # whatever is wrong with this file, convert the others
+            logging.error(f"{fn.name}: {type(e).__name__} {e}")
 
 
 def rinexnav(
-- 
2.43.0


From 6852405e2d68930a5f4690121760e67280775819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 25/59] fix: negative timedelta interval was accepted

---
 src/georinex/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index c3e2fa6..0b6c403 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -85,7 +85,8 @@ def check_time_interval(interval: float | int | timedelta | None) -> timedelta |
             raise ValueError("time interval must be non-negative")
         interval = timedelta(seconds=interval)
     elif isinstance(interval, timedelta):
-        pass
+        if interval < timedelta(0):
+            raise ValueError("time interval must be non-negative")
     elif interval is None:
         pass
     else:
-- 
2.43.0


From 787b03db90f8abdcd513b179f3f8c44d69669a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 26/59] fix: keplerian2ecef could not be used on a satellite of
 a loaded file, mixed systems

---
 src/georinex/keplerian.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 19f0c13..5ffd96a 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -22,7 +22,12 @@ def keplerian2ecef(
     http://web.cecs.pdx.edu/~ssp/Reports/2006/Monaghan.pdf
     """
 
-    if "sv" in sv and sv["sv"] in {"R", "S"}:
+    if "sv" in sv:  # the satellite's own system, the file may have several
+        svtype = str(np.atleast_1d(sv["sv"].values)[0])[0]
+    else:
+        svtype = sv.svtype[0]
+
+    if svtype in {"R", "S"}:
         return sv["X"], sv["Y"], sv["Z"]
 
     # sv = sv.dropna(dim='time', how='all')
@@ -38,13 +43,13 @@ def keplerian2ecef(
     n = n0 + sv["DeltaN"].values  # corrected mean motion
 
     # from GPS Week 0
-    if sv.svtype[0] == "E":
+    if svtype == "E":
         weeks = sv["GALWeek"].values - 1024
         # TODO: need to add N*4096 for year 2058 and beyond
-    elif sv.svtype[0] == "G":
+    elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-        raise ValueError(f"Unknown system type {sv.svtype[0]}")
+        raise ValueError(f"Unknown system type {svtype}")
     # %% shaping
     weeks = np.atleast_1d(weeks).astype(float)
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
-- 
2.43.0


From 5089b8e69ec9a77c3315f7c82bba5fb604a754ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 27/59] fix: keplerian2ecef failed for satellites that have no
 ephemeris at some epoch of the file

---
 src/georinex/keplerian.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 5ffd96a..32993f1 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -4,7 +4,6 @@ Michael Hirsch, Ph.D.
 """
 
 from __future__ import annotations
-from datetime import datetime, timedelta
 import xarray
 import numpy as np
 
@@ -55,15 +54,10 @@ def keplerian2ecef(
     Toe = np.atleast_1d(sv["Toe"].values).astype(float)
     e = sv["Eccentricity"].values
 
-    T0 = [datetime(1980, 1, 6) + timedelta(weeks=week) for week in weeks]
-
-    tk = np.empty(sv["time"].size, dtype=float)
-
     # %% time elapsed since reference epoch
-    for i, (t0, t1, t2) in enumerate(zip(T0, sv["time"], Toe)):
-        tsv = t1.values.astype("datetime64[us]").astype(datetime)
-        toe = timedelta(seconds=t2) + t0  # type: ignore
-        tk[i] = (tsv - toe).total_seconds()  # type: ignore
+    # NaN where this satellite has no ephemeris, but others of the file have
+    tgps = (np.atleast_1d(sv["time"].values) - np.datetime64("1980-01-06")) / np.timedelta64(1, "s")
+    tk = tgps - weeks * 7 * 86400 - Toe
     # %% Kepler's eqn of eccentric anomaly
     Mk = sv["M0"].values + n * tk  # Mean Anomaly
     Ek = Mk + e * np.sin(Mk)  # Eccentric anomaly
-- 
2.43.0


From 9874d76d4ea50666a0a96987d5ebd6403f753d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 28/59] fix: keplerian2ecef subtracted 1024 weeks from the
 Galileo week, that RINEX aligns to the GPS week

---
 src/georinex/keplerian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/georinex/keplerian.py b/src/georinex/keplerian.py
index 32993f1..2329dea 100644
--- a/src/georinex/keplerian.py
+++ b/src/georinex/keplerian.py
@@ -43,8 +43,7 @@ def keplerian2ecef(
 
     # from GPS Week 0
     if svtype == "E":
-        weeks = sv["GALWeek"].values - 1024
-        # TODO: need to add N*4096 for year 2058 and beyond
+        weeks = sv["GALWeek"].values  # in RINEX it is aligned to the GPS week
     elif svtype == "G":
         weeks = sv["GPSWeek"].values
     else:
-- 
2.43.0


From 7c0ee0eccabfc8879f33c43a401d28f7bc747a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 29/59] fix: get_locations mixed up files of the same name and
 failed on unreadable ones

---
 src/georinex/geo.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/georinex/geo.py b/src/georinex/geo.py
index 4691ab6..5b62bda 100644
--- a/src/georinex/geo.py
+++ b/src/georinex/geo.py
@@ -17,25 +17,23 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
     if isinstance(files, (Path, io.StringIO)):
         files = [files]
 
-    if isinstance(files[0], io.StringIO):
-        locs = pandas.DataFrame(index=["0"], columns=["lat", "lon", "interval"])
-    elif isinstance(files[0], Path):
-        locs = pandas.DataFrame(
-            index=[file.name for file in files], columns=["lat", "lon", "interval"]
-        )
-    else:
-        raise TypeError("Expecting pathlib.Path")
+    for file in files:
+        if not isinstance(file, (Path, io.StringIO)):
+            raise TypeError("Expecting pathlib.Path")
+
+    names = []
+    rows = []
 
     hdr: dict[T.Hashable, T.Any]
     for file in files:
-        if isinstance(file, Path) and file.suffix == ".nc":
-            dat = xarray.open_dataset(file, group="OBS")
-            hdr = dat.attrs
-        else:
-            try:
+        try:
+            if isinstance(file, Path) and file.suffix == ".nc":
+                with xarray.open_dataset(file, group="OBS") as dat:
+                    hdr = dat.attrs
+            else:
                 hdr = rinexheader(file)
-            except ValueError:
-                continue
+        except Exception:  # not readable, for whatever reason
+            continue
 
         if isinstance(file, Path):
             key = file.name
@@ -45,10 +43,12 @@ def get_locations(files: list[Path]) -> pandas.DataFrame:
         if "position_geodetic" not in hdr:
             continue
 
-        locs.loc[key, "lat"] = hdr["position_geodetic"][0]
-        locs.loc[key, "lon"] = hdr["position_geodetic"][1]
-        if "interval" in hdr and hdr["interval"] is not None:
-            locs.loc[key, "interval"] = hdr["interval"]
+        lat, lon = hdr["position_geodetic"][:2]
+        names.append(key)
+        rows.append([lat, lon, hdr.get("interval")])
+
+    # files in different directories may have the same name: rows are not assigned by name
+    locs = pandas.DataFrame(rows, index=names, columns=["lat", "lon", "interval"])
 
     locs = locs.loc[locs.loc[:, ["lat", "lon"]].notna().all(axis=1), :]
 
-- 
2.43.0


From 5b0f877c2382b2ed1a3280f8fbfec48d46fedfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:43 +0000
Subject: [PATCH 30/59] fix: compressed files named like another compression
 could not be read

---
 src/georinex/rio.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 1b569e2..9a95266 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -54,8 +54,17 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
             magic = fid.read(4)
 
         suffix = fn.suffix.lower()
-
-        if suffix == ".gz" or magic.startswith(b"\x1f\x8b"):
+        # the content tells, whatever the file is named
+        if magic.startswith(b"\x1f\x8b"):
+            suffix = ".gz"
+        elif magic.startswith(b"\x42\x5a\x68"):
+            suffix = ".bz2"
+        elif magic.startswith(b"\x50\x4b"):
+            suffix = ".zip"
+        elif magic.startswith(b"\x1f\x9d"):
+            suffix = ".z"
+
+        if suffix == ".gz":
             with gzip.open(fn, "rt", encoding="ascii", errors="ignore") as f:
                 _, is_crinex = rinex_version(first_nonblank_line(f))
                 f.seek(0)
@@ -68,7 +77,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                     """
                     f = io.StringIO(crx2rnx(f.read()))
                 yield f
-        elif suffix == ".bz2" or magic.startswith(b"\x42\x5a\x68"):
+        elif suffix == ".bz2":
             """
             plain bzip2 files, NOT tar.bz2, which requires f.seek(512)
             """
@@ -82,7 +91,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                     """
                     f = io.StringIO(crx2rnx(f.read()))
                 yield f
-        elif suffix == ".zip" or magic.startswith(b"\x50\x4b"):
+        elif suffix == ".zip":
             with zipfile.ZipFile(fn, "r") as z:
                 flist = z.namelist()
                 for rinexfn in flist:
@@ -99,7 +108,7 @@ def opener(fn: T.TextIO | Path, header: bool = False) -> T.Iterator[T.TextIO]:
                             """
                             f = io.StringIO(crx2rnx(f.read()))
                         yield f
-        elif suffix == ".z" or magic.startswith(b"\x1f\x9d"):
+        elif suffix == ".z":
             if unlzw is None:
                 raise ImportError("ncompress unlzw not available")
 
-- 
2.43.0


From 15f32ecbc97e32b6c64782c9a0c42cceaef837ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 31/59] fix: overwriting a group of a NetCDF file lost the
 other group, and crashed while the file was loaded

---
 src/georinex/base.py | 61 ++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 37a37ea..f07cbf4 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 import typing as T
+import shutil
 from pathlib import Path
 import xarray
 from datetime import datetime, timedelta
@@ -170,11 +171,7 @@ def rinexnav(
 
     # %% optional output write
     if outfn:
-        outfn = Path(outfn).expanduser()
-        wmode = _groupexists(outfn, group, overwrite)
-
-        enc = {k: ENC for k in nav.data_vars}
-        nav.to_netcdf(outfn, group=group, mode=wmode, encoding=enc, format="NETCDF4")
+        _write_group(nav, outfn, group, overwrite)
 
     return nav
 
@@ -240,28 +237,58 @@ def rinexobs(
 
     # %% optional output write
     if outfn:
-        outfn = Path(outfn).expanduser()
-        wmode = _groupexists(outfn, group, overwrite)
-        enc = {k: ENC for k in obs.data_vars}
-
         # Pandas >= 0.25.0 requires this, regardless of xarray version
         if obs.time.dtype != "datetime64[ns]":
             obs["time"] = obs.time.astype("datetime64[ns]")
-        obs.to_netcdf(outfn, group=group, mode=wmode, encoding=enc, format="NETCDF4")
+        _write_group(obs, outfn, group, overwrite)
 
     return obs
 
 
-def _groupexists(fn: Path, group: str, overwrite: bool) -> str:
+def _write_group(dat: xarray.Dataset, outfn: Path, group: str, overwrite: bool):
+    """
+    write the group, keeping the other groups of an existing file
+
+    An existing file is replaced, not modified in place:
+    datasets that were loaded from it may still be open.
+    """
+
+    outfn = Path(outfn).expanduser()
+    enc = {k: ENC for k in dat.data_vars}
+    _groupexists(outfn, group, overwrite)
+
+    if not outfn.is_file():
+        dat.to_netcdf(outfn, group=group, mode="w", encoding=enc, format="NETCDF4")
+        return
+
+    tmpfn = outfn.with_name(outfn.name + ".tmp")
+    try:
+        if overwrite:
+            dat.to_netcdf(tmpfn, group=group, mode="w", encoding=enc, format="NETCDF4")
+            for g in {"OBS", "NAV"} - {group}:
+                try:
+                    other = xarray.load_dataset(outfn, group=g)
+                except (OSError, ValueError):  # group is absent, or not a NetCDF file
+                    continue
+                other.to_netcdf(tmpfn, group=g, mode="a", format="NETCDF4")
+        else:
+            shutil.copyfile(outfn, tmpfn)
+            dat.to_netcdf(tmpfn, group=group, mode="a", encoding=enc, format="NETCDF4")
+        tmpfn.replace(outfn)
+    finally:
+        if tmpfn.is_file():
+            tmpfn.unlink()
+
+
+def _groupexists(fn: Path, group: str, overwrite: bool):
     print(f"saving {group}:", fn)
     if overwrite or not fn.is_file():
-        return "w"
+        return
 
-    # be sure there isn't already NAV in it
+    # be sure the group isn't already in it
     try:
-        xarray.open_dataset(fn, group=group)
-        raise ValueError(f"{group} already in {fn}")
+        xarray.open_dataset(fn, group=group).close()
     except OSError:
-        pass
+        return
 
-    return "a"
+    raise ValueError(f"{group} already in {fn}")
-- 
2.43.0


From cc82c2398fa6686946c228243be0a9917cd31f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 32/59] fix: datasets loaded from a NetCDF file kept it open,
 later loads and conversions crashed

---
 src/georinex/base.py | 4 ++--
 src/georinex/rio.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index f07cbf4..a175fd4 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -155,7 +155,7 @@ def rinexnav(
 
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}    {e}")
 
@@ -202,7 +202,7 @@ def rinexobs(
         # %% NetCDF4
         if fn.suffix == ".nc":
             try:
-                return xarray.open_dataset(fn, group=group)
+                return xarray.load_dataset(fn, group=group)
             except OSError as e:
                 raise LookupError(f"Group {group} not found in {fn}   {e}")
 
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 9a95266..09ddd40 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -172,11 +172,11 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             groups = []
             for g in ("OBS", "NAV"):
                 try:
-                    dat = xarray.open_dataset(fn, group=g)
+                    with xarray.open_dataset(fn, group=g) as dat:
+                        attrs.update(dat.attrs)
                 except OSError:
                     continue
                 groups.append(g.lower())
-                attrs.update(dat.attrs)
             attrs["rinextype"] = groups[0] if len(groups) == 1 else groups
             return attrs
 
-- 
2.43.0


From c36cb6a0b0b2e0db35440499ea54acec58d111e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 33/59] fix: nav3 record cut off at the end of the file was
 read with the layout of omitted spare fields

---
 src/georinex/nav3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index a01a0c4..2736e62 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -71,8 +71,11 @@ def rinexnav3(
             # %% get the data as one big long string per SV, unknown # of lines per SV
             raw = line[23:80]  # NOTE: 80, files put data in the last column!
 
-            for _, ln in zip(range(Nl[sv[0]]), f):
-                raw += ln[STARTCOL3:80]
+            lines = [ln[STARTCOL3:80] for _, ln in zip(range(Nl[sv[0]]), f)]
+            raw += "".join(lines)
+            # a record cut off by the end of file must not be taken for one that omits spare fields
+            if len(lines) < Nl[sv[0]] or _num_fields(lines[-1]) < (2 if sv[0] == "C" else 1):
+                raw = ""
             # one line per SV
             raws.append(raw.replace("D", "E").replace("\n", ""))
 
-- 
2.43.0


From 5b07690eb7a8ef4e03151b86611d0818371b536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 34/59] fix: epoch lines cut before the flag or number of
 satellites made the file unreadable

---
 src/georinex/obs2.py | 2 +-
 src/georinex/obs3.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 82265dc..71e32f4 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -609,7 +609,7 @@ def _timeobs(ln: str) -> datetime:
         microsecond=usec,
     )
     # %% check if valid time
-    eflag = int(ln[28])
+    eflag = int(ln[28:29])  # ValueError if the line is too short
     if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
         raise ValueError(f"{t}: epoch flag {eflag}")
 
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index c63dd4b..65e9071 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -94,6 +94,8 @@ def rinexobs3(
 
             try:
                 time = _timeobs(ln)
+                # Number of visible satellites this time %i3  pg. A13
+                Nsv = int(ln[32:35])
             except ValueError:  # garbage between header and RINEX data
                 logging.debug(f"garbage detected in {fn}, trying to parse at next time step")
                 continue
@@ -102,8 +104,7 @@ def rinexobs3(
             # %% get SV indices
             sv = []
             raw = ""
-            # Number of visible satellites this time %i3  pg. A13
-            for _ in range(int(ln[32:35])):
+            for _ in range(Nsv):
                 ln = f.readline()
                 sv.append(ln[:3])
                 raw += ln[3:]
@@ -227,7 +228,9 @@ def obstime3(fn: T.TextIO | Path, verbose: bool = False):
                 if _skip_event(f, ln):
                     continue
                 try:
-                    times.append(_timeobs(ln))
+                    time = _timeobs(ln)
+                    int(ln[32:35])  # an epoch has the number of satellites
+                    times.append(time)
                 except (ValueError, IndexError):
                     logging.debug(f"was not a time:\n{ln}")
                     continue
-- 
2.43.0


From fa96fe27dca13465ef7cfb7f8a8301b012f5eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 35/59] fix: nav3 KeyError for records of unknown satellite
 systems

---
 src/georinex/nav3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 2736e62..a2264ec 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -184,6 +184,9 @@ def _skip(f: T.TextIO, Nl: int):
 
 
 def _time(ln: str) -> datetime:
+    if ln[:1] not in Nl:
+        raise ValueError(f"unknown satellite system {ln[:3]}")
+
     return datetime(
         year=int(ln[4:8]),
         month=int(ln[9:11]),
-- 
2.43.0


From f3df455c152049538bfa7bb8bc3d6ea6634c163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:15 +0000
Subject: [PATCH 36/59] fix: SP3 conversion replaced existing output, whatever
 it had, without overwrite

---
 src/georinex/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index a175fd4..934b907 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -82,6 +82,8 @@ def load(
     assert isinstance(rinexfn, Path)
 
     if info["rinextype"] == "sp3":
+        if outfn is not None and outfn.is_file() and not overwrite:
+            raise ValueError(f"{outfn} already exists")
         return load_sp3(rinexfn, outfn)
     elif rinexfn.suffix == ".nc":
         # outfn not used here, because we already have the converted file!
-- 
2.43.0


From b56a6e7e9101cd6c1946a72eb4569e1f51b8f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 37/59] fix: mixed observation files without TIME OF FIRST OBS
 could not be loaded

---
 src/georinex/obs2.py | 5 ++++-
 src/georinex/obs3.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 71e32f4..b097d0f 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -310,7 +310,10 @@ def rinexsystem2(
 
     obs.attrs["rinextype"] = "obs"
     obs.attrs["fast_processing"] = int(fast)  # bool is not allowed in NetCDF4
-    obs.attrs["time_system"] = determine_time_system(hdr)
+    try:
+        obs.attrs["time_system"] = determine_time_system(hdr)
+    except KeyError:  # mixed file without TIME OF FIRST OBS
+        pass
     if isinstance(fn, Path):
         obs.attrs["filename"] = fn.name
     if "rxmodel" in hdr.keys():
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index 65e9071..f49359f 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -154,7 +154,10 @@ def rinexobs3(
 
     data.attrs["rinextype"] = "obs"
     data.attrs["fast_processing"] = 0  # bool is not allowed in NetCDF4
-    data.attrs["time_system"] = determine_time_system(hdr)
+    try:
+        data.attrs["time_system"] = determine_time_system(hdr)
+    except KeyError:  # mixed file without TIME OF FIRST OBS
+        pass
     if isinstance(fn, Path):
         data.attrs["filename"] = fn.name
 
-- 
2.43.0


From f39edd11be0dd73ab3cb0477c720206b0960d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 38/59] fix: blank, incomplete or repeated receiver position
 made observation files unreadable

---
 src/georinex/obs2.py | 9 ++++++---
 src/georinex/obs3.py | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index b097d0f..4f98d6e 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -421,9 +421,12 @@ def obsheader2(
     hdr["Nl_sv"] = ceil(hdr["Nobs"] / 5)
     # %% list with receiver location in x,y,z cartesian ECEF (OPTIONAL)
     try:
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()]
-        if ecef2geodetic is not None:
-            hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
+        # some RINEX files have multiple APPROX POSITION XYZ, the first is used
+        position = [float(j) for j in hdr["APPROX POSITION XYZ"].split()[:3]]
+        if len(position) == 3:
+            hdr["position"] = position
+            if ecef2geodetic is not None:
+                hdr["position_geodetic"] = ecef2geodetic(*position)
     except (KeyError, ValueError):
         pass
     # %% observation types
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index f49359f..d2705e9 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -360,9 +360,11 @@ def obsheader3(
     try:
         # some RINEX files have bad headers with mulitple APPROX POSITION XYZ.
         # we choose to use the first such header.
-        hdr["position"] = [float(j) for j in hdr["APPROX POSITION XYZ"].split()][:3]
-        if ecef2geodetic is not None and len(hdr["position"]) == 3:
-            hdr["position_geodetic"] = ecef2geodetic(*hdr["position"])
+        position = [float(j) for j in hdr["APPROX POSITION XYZ"].split()[:3]]
+        if len(position) == 3:
+            hdr["position"] = position
+            if ecef2geodetic is not None:
+                hdr["position_geodetic"] = ecef2geodetic(*position)
     except (KeyError, ValueError):
         pass
     # %% time
-- 
2.43.0


From 4904f49f27822583baa842c952cf7418a978d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 39/59] fix: unreadable ionospheric or time system coefficients
 made navigation files unreadable

---
 src/georinex/nav2.py |  9 ++++++---
 src/georinex/nav3.py | 26 +++++++++++++++++---------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index ce00b6f..597a924 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -207,10 +207,13 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
     if "ION ALPHA" in header and "ION BETA" in header:
         alpha = header["ION ALPHA"]
-        alpha = [rinex_string_to_float(alpha[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
         beta = header["ION BETA"]
-        beta = [rinex_string_to_float(beta[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
-        nav.attrs["ionospheric_corr_GPS"] = np.hstack((alpha, beta))
+        try:
+            alpha = [rinex_string_to_float(alpha[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
+            beta = [rinex_string_to_float(beta[2 + i * 12 : 2 + (i + 1) * 12]) for i in range(4)]
+            nav.attrs["ionospheric_corr_GPS"] = np.hstack((alpha, beta))
+        except ValueError:
+            logging.info("ionospheric coefficients are not readable")
 
     return nav
 
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index a2264ec..0a90de8 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -500,9 +500,13 @@ def navheader3(f: T.TextIO) -> dict[T.Hashable, T.Any]:
             coeff_kind = content[:4].strip()
             N = 3 if coeff_kind == "GAL" else 4
             # RINEX 3.04 table A5 page A19
-            coeff = [
-                rinex_string_to_float(content[5 + i * 12 : 5 + (i + 1) * 12]) for i in range(N)
-            ]
+            try:
+                coeff = [
+                    rinex_string_to_float(content[5 + i * 12 : 5 + (i + 1) * 12]) for i in range(N)
+                ]
+            except ValueError:
+                logging.info(f"malformed header line {ln}")
+                continue
             hdr[kind][coeff_kind] = coeff
         elif kind == "TIME SYSTEM CORR":
             if kind not in hdr:
@@ -510,12 +514,16 @@ def navheader3(f: T.TextIO) -> dict[T.Hashable, T.Any]:
 
             coeff_kind = content[:4].strip()
             # RINEX 3.04 table A5 page A20
-            coeff = [
-                rinex_string_to_float(content[5:22]),
-                rinex_string_to_float(content[22:38]),
-                int(content[38:45]),
-                int(content[45:50]),
-            ]
+            try:
+                coeff = [
+                    rinex_string_to_float(content[5:22]),
+                    rinex_string_to_float(content[22:38]),
+                    int(content[38:45]),
+                    int(content[45:50]),
+                ]
+            except ValueError:
+                logging.info(f"malformed header line {ln}")
+                continue
             hdr[kind][coeff_kind] = coeff
         else:
             hdr[kind] = content
-- 
2.43.0


From 7695804821952eaec07617c9f12388a7d0f5ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 40/59] fix: receiver type was wrong if the receiver number or
 version was blank or had spaces

---
 src/georinex/obs2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 4f98d6e..18f7200 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -480,8 +480,10 @@ def obsheader2(
         pass
 
     try:
-        s = " "
-        hdr["rxmodel"] = s.join(hdr["REC # / TYPE / VERS"].split()[1:-1])
+        # 3*A20; number, type and version may be blank or have several words
+        rxmodel = hdr["REC # / TYPE / VERS"][20:40].strip()
+        if rxmodel:
+            hdr["rxmodel"] = rxmodel
     except (KeyError, ValueError):
         pass
 
-- 
2.43.0


From fcd85bc7f61256f30445bc25a7ba964a14e3fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 41/59] fix: georinex.time failed with ZeroDivisionError for
 files of interval 0

---
 src/georinex/time/__main__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index b1b1917..0a806be 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -27,9 +27,10 @@ def eachfile(fn: Path):
     interval = hdr.get("interval", np.nan)
     if ~np.isnan(interval):
         ostr += f" {interval}"
-        Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
-        if Nexpect != Ntimes:
-            logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
+        if interval > 0:  # zero: not known
+            Nexpect = (t1 - t0) // timedelta(seconds=interval) + 1
+            if Nexpect != Ntimes:
+                logging.warning(f"{fn.name}: expected {Nexpect} but got {Ntimes} times")
 
     print(ostr)
 
-- 
2.43.0


From d718ea02cee54b973b1768b2a81000e139042ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 42/59] fix: georinex.time stopped at the first file of a
 directory that is damaged or not RINEX

---
 src/georinex/time/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/time/__main__.py b/src/georinex/time/__main__.py
index 0a806be..2315157 100644
--- a/src/georinex/time/__main__.py
+++ b/src/georinex/time/__main__.py
@@ -51,7 +51,7 @@ if filename.is_dir():
     for f in flist:
         try:
             eachfile(f)
-        except ValueError as err:
+        except Exception as err:  # not readable, for whatever reason
             logging.error(f"{f.name}: {err}")
 elif filename.is_file():
     eachfile(filename)
-- 
2.43.0


From 57205b8d08837ec7138d875af691149f2cddbea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:59 +0000
Subject: [PATCH 43/59] fix: globber listed files twice that match several
 patterns

---
 src/georinex/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/utils.py b/src/georinex/utils.py
index b958e67..b718295 100644
--- a/src/georinex/utils.py
+++ b/src/georinex/utils.py
@@ -23,7 +23,7 @@ def globber(path: Path, glob: list[str]) -> list[Path]:
 
     flist: list[Path] = []
     for g in glob:
-        flist += [f for f in path.glob(g) if f.is_file()]
+        flist += [f for f in path.glob(g) if f.is_file() and f not in flist]
 
     return flist
 
-- 
2.43.0


From f5ad1cb5292ce5dd8d52811370096e45be2ed04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 44/59] fix: first line that is cut before the end of its label
 was accepted as RINEX

---
 src/georinex/rio.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 09ddd40..09edca7 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -257,9 +257,8 @@ def rinex_version(s: str) -> tuple[float | str, bool]:
         return "sp3" + s[1], False
 
     # %% typical RINEX files
-    if len(s) >= 80:
-        if s[60:80] not in ("RINEX VERSION / TYPE", "CRINEX VERS   / TYPE"):
-            raise ValueError("The first line of the RINEX file header is corrupted.")
+    if s[60:80] not in ("RINEX VERSION / TYPE", "CRINEX VERS   / TYPE"):
+        raise ValueError("The first line of the RINEX file header is corrupted.")
 
     try:
         vers = float(s[:9])  # %9.2f
-- 
2.43.0


From 1eddfa8d015a6b4cd121d44892236a3e195d3e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 45/59] fix: Hatanaka file with corrupted format name was read
 as if it was not compressed

---
 src/georinex/rio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 09edca7..a60511c 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -266,5 +266,7 @@ def rinex_version(s: str) -> tuple[float | str, bool]:
         raise ValueError(f"Could not determine file version from {s[:9]}   {err}")
 
     is_crinex = s[20:40] == "COMPACT RINEX FORMAT"
+    if s[60:80] == "CRINEX VERS   / TYPE" and not is_crinex:
+        raise ValueError("The first line of the CRINEX file header is corrupted.")
 
     return vers, is_crinex
-- 
2.43.0


From 750161a50d0a242f5f4fcfca424d2f789f125d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 46/59] fix: version "inf" raised OverflowError instead of
 ValueError

---
 src/georinex/rio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index a60511c..ce0c68d 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -219,7 +219,7 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
             "systems": system,
         }
 
-    except (TypeError, AttributeError, ValueError, IndexError) as e:
+    except (TypeError, AttributeError, ValueError, IndexError, OverflowError) as e:
         # keep ValueError for consistent user error handling
         raise ValueError(f"not a known/valid RINEX file.  {e}")
 
-- 
2.43.0


From fe08560d26ffe829907ebb52ac04bb56942c23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 47/59] fix: rinexinfo, rinexheader of missing or unreadable
 NetCDF files returned empty information

---
 src/georinex/rio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index ce0c68d..1445487 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -168,6 +168,8 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
         fn = Path(f).expanduser()
 
         if fn.suffix == ".nc":
+            if not fn.is_file():
+                raise FileNotFoundError(fn)
             attrs: dict[T.Hashable, T.Any] = {}
             groups = []
             for g in ("OBS", "NAV"):
@@ -177,6 +179,8 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
                 except OSError:
                     continue
                 groups.append(g.lower())
+            if not groups:
+                raise ValueError(f"no observation or navigation data in {fn}")
             attrs["rinextype"] = groups[0] if len(groups) == 1 else groups
             return attrs
 
-- 
2.43.0


From 8b20386b4467d8e6c4d815f6ad87b924233260dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 48/59] fix: plot maps with current matplotlib (gca takes no
 projection)

---
 src/georinex/plots_geo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 32f5f6f..57a9f6f 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -25,7 +25,7 @@ def navtimeseries(nav: xarray.Dataset):
     svs = nav.sv.values
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
@@ -91,7 +91,7 @@ def receiver_locations(locs: pandas.DataFrame):
         return
 
     if cartopy is not None:
-        ax = figure().gca(projection=cartopy.crs.PlateCarree())
+        ax = figure().add_subplot(projection=cartopy.crs.PlateCarree())
 
         ax.add_feature(cpf.LAND)
         ax.add_feature(cpf.OCEAN)
-- 
2.43.0


From 63ce265e6e827021b3dffe025c59e405f98deaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 49/59] fix: receiver_locations: "o" is not a colour

---
 src/georinex/plots_geo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index 57a9f6f..f11fa5a 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -104,7 +104,7 @@ def receiver_locations(locs: pandas.DataFrame):
         if 15 <= loc.interval < 30:
             c = "g"
         elif 5 <= loc.interval < 15:
-            c = "o"
+            c = "orange"
         elif loc.interval < 5:
             c = "r"
         else:  # large or undefined interval
-- 
2.43.0


From 3bddf20022d8615dc118aa31e14f43c11727157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 50/59] fix: receiver_locations: unknown and zero intervals

---
 src/georinex/plots_geo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/georinex/plots_geo.py b/src/georinex/plots_geo.py
index f11fa5a..38cdd95 100644
--- a/src/georinex/plots_geo.py
+++ b/src/georinex/plots_geo.py
@@ -100,17 +100,20 @@ def receiver_locations(locs: pandas.DataFrame):
     else:
         ax = figure().gca()
 
+    # None where the interval is not known
+    locs = locs.assign(interval=pandas.to_numeric(locs["interval"]))
+
     for name, loc in locs.iterrows():
         if 15 <= loc.interval < 30:
             c = "g"
         elif 5 <= loc.interval < 15:
             c = "orange"
-        elif loc.interval < 5:
+        elif 0 < loc.interval < 5:
             c = "r"
         else:  # large or undefined interval
             c = "b"
 
-        if np.isfinite(loc.interval):
+        if loc.interval > 0 and np.isfinite(loc.interval):
             ax.scatter(loc.lon, loc.lat, s=1000 * 1 / loc.interval, c=c, label=name)
         else:
             ax.scatter(loc.lon, loc.lat, c=c, label=name)
-- 
2.43.0


From 076555d7d78e073175adcfdb0c41b601a645b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 51/59] fix: plot observations read from a stream

---
 src/georinex/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 3444f6e..22ce297 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -42,7 +42,7 @@ def obstimeseries(obs: xarray.Dataset):
 
         ax.plot(time, dat)
 
-        ax.set_title(obs.filename)
+        ax.set_title(obs.attrs.get("filename", ""))
         ax.set_xlabel("time [UTC]")
         ax.set_ylabel(p)
         ax.grid(True)
-- 
2.43.0


From 2214631d944bd56874f41a67aa81fe59edd8ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 52/59] fix: plot.timeseries: data of a NetCDF file with NAV
 and OBS, SP3

---
 src/georinex/plots.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/georinex/plots.py b/src/georinex/plots.py
index 22ce297..0909f41 100644
--- a/src/georinex/plots.py
+++ b/src/georinex/plots.py
@@ -9,17 +9,18 @@ except ImportError as e:
 
 
 def timeseries(data):
+    if isinstance(data, dict):  # NetCDF file with both
+        for dat in data.values():
+            timeseries(dat)
+        return
+
     if not isinstance(data, xarray.Dataset):
         return
 
-    if isinstance(data, tuple):
-        obs, nav = data
-        obstimeseries(obs)
-        if navtimeseries is not None:
-            navtimeseries(nav)
-    elif data.rinextype == "obs":
+    rinextype = data.attrs.get("rinextype")  # SP3 has none
+    if rinextype == "obs":
         obstimeseries(data)
-    elif data.rinextype == "nav":
+    elif rinextype == "nav":
         if navtimeseries is not None:
             navtimeseries(data)
 
-- 
2.43.0


From b8294bff1a293d0b85e9663a0557038133ea52fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 53/59] fix: georinex.plot: satellites of other systems than
 GPS

---
 src/georinex/plot/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/plot/__main__.py b/src/georinex/plot/__main__.py
index 2c38232..ef0e65a 100644
--- a/src/georinex/plot/__main__.py
+++ b/src/georinex/plot/__main__.py
@@ -28,7 +28,7 @@ P = p.parse_args()
 
 rinexfn = Path(P.rinexfn).expanduser()
 
-obs = gr.load(rinexfn, use={"G"})
+obs = gr.load(rinexfn, use={sv[0] for sv in P.sv})
 
 # %% optional time indexing demo
 # can use datetime or string
-- 
2.43.0


From 12fc5f464b154df2d2d90fdf3e1307c2fa473d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 54/59] fix: RINEX 2 stream, zip, .Z, bz2 or Hatanaka with a
 wrong number of types

---
 src/georinex/obs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 18f7200..54eda82 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -434,7 +434,7 @@ def obsheader2(
         hdr["fields"] = hdr["# / TYPES OF OBSERV"]
         if hdr["Nobs"] != len(hdr["fields"]):
             logging.error(
-                f"{f.name} number of observations declared in header does not match fields"
+                f"{getattr(f, 'name', f)} number of observations declared in header does not match fields"
             )
             hdr["Nobs"] = len(hdr["fields"])
 
-- 
2.43.0


From 00dea54574d4ebd81675c43084b1189f5fdfcf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 55/59] fix: an interrupted or failing conversion leaves no
 incomplete output

---
 src/georinex/base.py | 13 +++++--------
 src/georinex/sp3.py  |  9 ++++++++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 934b907..9dd9236 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -251,26 +251,23 @@ def _write_group(dat: xarray.Dataset, outfn: Path, group: str, overwrite: bool):
     """
     write the group, keeping the other groups of an existing file
 
-    An existing file is replaced, not modified in place:
-    datasets that were loaded from it may still be open.
+    The file is written under another name, then replaces an existing one:
+    datasets that were loaded from it may still be open,
+    and it is never incomplete, even if writing fails or is interrupted.
     """
 
     outfn = Path(outfn).expanduser()
     enc = {k: ENC for k in dat.data_vars}
     _groupexists(outfn, group, overwrite)
 
-    if not outfn.is_file():
-        dat.to_netcdf(outfn, group=group, mode="w", encoding=enc, format="NETCDF4")
-        return
-
     tmpfn = outfn.with_name(outfn.name + ".tmp")
     try:
-        if overwrite:
+        if overwrite or not outfn.is_file():
             dat.to_netcdf(tmpfn, group=group, mode="w", encoding=enc, format="NETCDF4")
             for g in {"OBS", "NAV"} - {group}:
                 try:
                     other = xarray.load_dataset(outfn, group=g)
-                except (OSError, ValueError):  # group is absent, or not a NetCDF file
+                except (OSError, ValueError):  # group or file is absent, or not a NetCDF file
                     continue
                 other.to_netcdf(tmpfn, group=g, mode="a", format="NETCDF4")
         else:
diff --git a/src/georinex/sp3.py b/src/georinex/sp3.py
index 9f72fce..c79cd06 100644
--- a/src/georinex/sp3.py
+++ b/src/georinex/sp3.py
@@ -129,7 +129,14 @@ def load_sp3(fn: Path, outfn: Path | None) -> xarray.Dataset:
     if outfn:
         outfn = Path(outfn).expanduser()
         enc = {k: ENC for k in ds.data_vars}
-        ds.to_netcdf(outfn, mode="w", encoding=enc, format="NETCDF4")
+        # an existing file is replaced, and is never incomplete
+        tmpfn = outfn.with_name(outfn.name + ".tmp")
+        try:
+            ds.to_netcdf(tmpfn, mode="w", encoding=enc, format="NETCDF4")
+            tmpfn.replace(outfn)
+        finally:
+            if tmpfn.is_file():
+                tmpfn.unlink()
 
     return ds
 
-- 
2.43.0


From a5deecef18fa3c97ba09afe605720f9292c968ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 56/59] fix: a NetCDF file that cannot be read is not one
 without the group

---
 src/georinex/base.py | 35 ++++++++++++++++++++++++++++-------
 src/georinex/rio.py  | 11 +++++++++--
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/georinex/base.py b/src/georinex/base.py
index 9dd9236..e8bbda2 100644
--- a/src/georinex/base.py
+++ b/src/georinex/base.py
@@ -6,7 +6,7 @@ import xarray
 from datetime import datetime, timedelta
 import logging
 
-from .rio import rinexinfo
+from .rio import rinexinfo, group_absent
 from .obs2 import rinexobs2
 from .obs3 import rinexobs3
 from .nav2 import rinexnav2
@@ -159,6 +159,8 @@ def rinexnav(
             try:
                 return xarray.load_dataset(fn, group=group)
             except OSError as e:
+                if not group_absent(e):
+                    raise
                 raise LookupError(f"Group {group} not found in {fn}    {e}")
 
     tlim = _tlim(tlim)
@@ -206,6 +208,8 @@ def rinexobs(
             try:
                 return xarray.load_dataset(fn, group=group)
             except OSError as e:
+                if not group_absent(e):
+                    raise
                 raise LookupError(f"Group {group} not found in {fn}   {e}")
 
     tlim = _tlim(tlim)
@@ -264,11 +268,7 @@ def _write_group(dat: xarray.Dataset, outfn: Path, group: str, overwrite: bool):
     try:
         if overwrite or not outfn.is_file():
             dat.to_netcdf(tmpfn, group=group, mode="w", encoding=enc, format="NETCDF4")
-            for g in {"OBS", "NAV"} - {group}:
-                try:
-                    other = xarray.load_dataset(outfn, group=g)
-                except (OSError, ValueError):  # group or file is absent, or not a NetCDF file
-                    continue
+            for g, other in _other_groups(outfn, group):
                 other.to_netcdf(tmpfn, group=g, mode="a", format="NETCDF4")
         else:
             shutil.copyfile(outfn, tmpfn)
@@ -279,6 +279,25 @@ def _write_group(dat: xarray.Dataset, outfn: Path, group: str, overwrite: bool):
             tmpfn.unlink()
 
 
+def _other_groups(fn: Path, group: str):
+    """groups to keep of an existing file"""
+    if not fn.is_file():
+        return
+
+    with fn.open("rb") as f:
+        if f.read(4) != b"\x89HDF":
+            return  # not a NetCDF4 file
+
+    for g in {"OBS", "NAV"} - {group}:
+        try:
+            other = xarray.load_dataset(fn, group=g)
+        except OSError as e:
+            if not group_absent(e):  # it may be there, do not lose it
+                raise
+            continue
+        yield g, other
+
+
 def _groupexists(fn: Path, group: str, overwrite: bool):
     print(f"saving {group}:", fn)
     if overwrite or not fn.is_file():
@@ -287,7 +306,9 @@ def _groupexists(fn: Path, group: str, overwrite: bool):
     # be sure the group isn't already in it
     try:
         xarray.open_dataset(fn, group=group).close()
-    except OSError:
+    except OSError as e:
+        if not group_absent(e):
+            raise
         return
 
     raise ValueError(f"{group} already in {fn}")
diff --git a/src/georinex/rio.py b/src/georinex/rio.py
index 1445487..74e00da 100644
--- a/src/georinex/rio.py
+++ b/src/georinex/rio.py
@@ -161,6 +161,11 @@ def first_nonblank_line(f: T.TextIO, max_lines: int = 10) -> str:
     return line
 
 
+def group_absent(e: Exception) -> bool:
+    """is a group missing in a NetCDF file? Otherwise the file could not be read."""
+    return "group not found" in str(e)
+
+
 def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
     """verify RINEX version"""
 
@@ -176,8 +181,10 @@ def rinexinfo(f: T.TextIO | Path) -> dict[T.Hashable, T.Any]:
                 try:
                     with xarray.open_dataset(fn, group=g) as dat:
                         attrs.update(dat.attrs)
-                except OSError:
-                    continue
+                except OSError as e:
+                    if group_absent(e):
+                        continue
+                    raise ValueError(f"{fn} cannot be read: {e}")
                 groups.append(g.lower())
             if not groups:
                 raise ValueError(f"no observation or navigation data in {fn}")
-- 
2.43.0


From cb7b3830bc13a0cde23095003efd2187da659960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 57/59] fix: navigation files with the exponent letter "d"

---
 src/georinex/common.py | 2 +-
 src/georinex/nav2.py   | 2 +-
 src/georinex/nav3.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/common.py b/src/georinex/common.py
index 0b6c403..f74e66f 100644
--- a/src/georinex/common.py
+++ b/src/georinex/common.py
@@ -24,7 +24,7 @@ def check_unique_times(times: np.ndarray) -> bool:
 
 
 def rinex_string_to_float(s: str) -> float:
-    return float(s.replace("D", "E"))
+    return float(s.replace("D", "E").replace("d", "e"))
 
 
 def fractional_microseconds(s: str) -> int:
diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 597a924..8bf84dd 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -148,7 +148,7 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
-            raws.append(raw.replace("D", "E").replace("\n", ""))
+            raws.append(raw.replace("D", "E").replace("d", "e").replace("\n", ""))
 
     # %% parse collected data lines per SV
     svs = [s.replace(" ", "0") for s in svs]
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 0a90de8..80ed668 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -77,7 +77,7 @@ def rinexnav3(
             if len(lines) < Nl[sv[0]] or _num_fields(lines[-1]) < (2 if sv[0] == "C" else 1):
                 raw = ""
             # one line per SV
-            raws.append(raw.replace("D", "E").replace("\n", ""))
+            raws.append(raw.replace("D", "E").replace("d", "e").replace("\n", ""))
 
     # %% parse collected data per SV
     # NOTE: must be 'ns' or .to_netcdf will fail!
-- 
2.43.0


From 0ad640fb43cc49b44d1ce5d179b2d69b14abacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 58/59] fix: external events and cycle slip records are not
 observations

---
 src/georinex/obs2.py | 2 +-
 src/georinex/obs3.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/georinex/obs2.py b/src/georinex/obs2.py
index 54eda82..32d2c6a 100644
--- a/src/georinex/obs2.py
+++ b/src/georinex/obs2.py
@@ -618,7 +618,7 @@ def _timeobs(ln: str) -> datetime:
     )
     # %% check if valid time
     eflag = int(ln[28:29])  # ValueError if the line is too short
-    if eflag not in {0, 1, 5, 6}:  # EPOCH FLAG
+    if eflag not in {0, 1}:  # EPOCH FLAG
         raise ValueError(f"{t}: epoch flag {eflag}")
 
     return t
diff --git a/src/georinex/obs3.py b/src/georinex/obs3.py
index d2705e9..1fd8d4b 100644
--- a/src/georinex/obs3.py
+++ b/src/georinex/obs3.py
@@ -199,9 +199,9 @@ def _timeobs(ln: str) -> datetime:
 
 def _skip_event(f: T.TextIO, ln: str) -> bool:
     """
-    epoch flags 2..5 are events: the lines that follow are not satellites
+    epoch flags 2..6 are events (6: cycle slips): the lines that follow are not observations
     """
-    if ln[31:32] not in {"2", "3", "4", "5"}:
+    if ln[31:32] not in {"2", "3", "4", "5", "6"}:
         return False
 
     try:
-- 
2.43.0


From ff7a76a90d3541c2d66d30c6effbe6a0af6d44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 59/59] fix: blank navigation fields at the end of a line or
 record shifted or lost the parameters

---
 src/georinex/nav2.py |  13 ++++--
 src/georinex/nav3.py | 107 +++++++++++++++++++------------------------
 2 files changed, 57 insertions(+), 63 deletions(-)

diff --git a/src/georinex/nav2.py b/src/georinex/nav2.py
index 8bf84dd..e322a44 100644
--- a/src/georinex/nav2.py
+++ b/src/georinex/nav2.py
@@ -141,10 +141,17 @@ def rinexnav2(fn: T.TextIO | Path, tlim: tuple[datetime, datetime] | None = None
 
             times.append(time)
             # %% read the data as one big long string per SV
-            raw = ln[22:79]
             # NOTE: MUST be 79, not 80 due to some files that put \n a character early!
-            for _ in range(Nl[header["systems"]]):
-                raw += f.readline()[STARTCOL2:79]
+            lines = [ln[22:79]] + [
+                f.readline()[STARTCOL2:79] for _ in range(Nl[header["systems"]])
+            ]
+            # blank fields at the end of a line may be omitted, those of the next line stay theirs
+            raw = ""
+            for k, line in enumerate(lines[:-1]):
+                # Galileo has a spare field, that is not in "fields", at the end of the sixth line
+                width = Lf * (3 if k == 0 or (svtype == "E" and k == 5) else 4)
+                raw += f"{line.rstrip():{width}s}"[:width]
+            raw += lines[-1]
             # one line per SV
             # Sebastijan also added .replace('  ', ' ').replace(' -', '-') here,
             # I didn't add that yet because I don't know if it's generally needed.
diff --git a/src/georinex/nav3.py b/src/georinex/nav3.py
index 80ed668..a51c887 100644
--- a/src/georinex/nav3.py
+++ b/src/georinex/nav3.py
@@ -30,7 +30,7 @@ def rinexnav3(
         fn = Path(fn).expanduser()
 
     svs = []
-    raws = []
+    raws: list[list[str]] = []
     svtypes: list[str] = []
     fields: dict[str, list[str]] = {}
     times: list[datetime] = []
@@ -69,15 +69,20 @@ def rinexnav3(
             # patch SV names in case of "G 7" => "G07"
 
             # %% get the data as one big long string per SV, unknown # of lines per SV
-            raw = line[23:80]  # NOTE: 80, files put data in the last column!
-
-            lines = [ln[STARTCOL3:80] for _, ln in zip(range(Nl[sv[0]]), f)]
-            raw += "".join(lines)
-            # a record cut off by the end of file must not be taken for one that omits spare fields
-            if len(lines) < Nl[sv[0]] or _num_fields(lines[-1]) < (2 if sv[0] == "C" else 1):
-                raw = ""
-            # one line per SV
-            raws.append(raw.replace("D", "E").replace("d", "e").replace("\n", ""))
+            # NOTE: 80, files put data in the last column!
+            data = [ln for _, ln in zip(range(Nl[sv[0]]), f)]
+            lines = [line[23:80]] + [ln[STARTCOL3:80] for ln in data]
+            # a record cut off by the end of file must not be taken for one that omits fields
+            Nlast = {"C": 2, "R": 4, "S": 4}.get(sv[0], 1)
+            if len(data) < Nl[sv[0]] or (
+                not data[-1].endswith("\n")
+                and _num_fields(lines[-1]) < Nlast
+                and len(lines[-1]) < LF * Nlast
+            ):
+                lines = []
+            # one list of fields per SV
+            lines = [ln.replace("D", "E").replace("d", "e") for ln in lines]
+            raws.append(_split_fields(lines, sv[0]))
 
     # %% parse collected data per SV
     # NOTE: must be 'ns' or .to_netcdf will fail!
@@ -102,12 +107,8 @@ def rinexnav3(
             for j, i in enumerate(svi):
                 try:
                     # each record may have or omit the spare fields
-                    compact_fields = _sparefields(full_fields, sys=sv[0], N=_num_fields(raws[i]))
-                    compact_index = [k for k, c in enumerate(full_fields) if c in compact_fields]
-                    rows[j] = compact_index, [
-                        float(raws[i][LF * k : LF * (k + 1)].strip() or 0)
-                        for k in range(len(compact_index))
-                    ]
+                    compact_index = _compact_index(full_fields, raws[i], sys=sv[0])
+                    rows[j] = compact_index, [float(raws[i][k].strip() or 0) for k in compact_index]
                 except ValueError:
                     logging.info(f"malformed line for {sv}")
 
@@ -197,56 +198,42 @@ def _time(ln: str) -> datetime:
     )
 
 
-def _sparefields(cf: list[str], sys: str, N: int) -> list[str]:
+def _split_fields(lines: list[str], sys: str) -> list[str]:
     """
-    check for optional spare fields, or GPS "fit interval" field
+    fields of a record, "" for those at the end of a line that are omitted
 
     You might find a new way that NAV3 files are irregular--please open a
     GitHub Issue or Pull Request.
     """
 
-    # %% patching for Spare entries, some receivers include, and some don't include...
-    if sys == "G":
-        if N == 30:
-            cf = cf[:-1]
-        elif N == 29:
-            cf = cf[:-2]
-        elif N == 28:
-            # no FitIntvl either
-            cf = cf[:-3]
-    elif sys == "C":
-        if N == 27:
-            cf = cf[:20] + [cf[21]] + cf[23:29]
-        elif N == 28:
-            cf = cf[:22] + cf[23:29]
-        elif N == 29:
-            cf = cf[:29]
-        elif N == 30:
-            cf = cf[:30]
-    elif sys == "J":
-        # QZSS
-        if N==28:
-            N = 29
-            cf = cf[:29]
-        elif N == 29:
-            cf = cf[:29]
-        elif N == 30:
-            cf = cf[:30]
-    elif sys == "E":
-        if N == 29:  # only one trailing spare fields
-            cf = cf[:-2]
-        elif N == 28:  # zero trailing spare fields
-            cf = cf[:-3]
-        elif N == 27:  # no middle or trailing spare fields
-            cf = cf[:22] + cf[23:-3]
-    elif sys == "I":
-        if N == 28:
-            cf = cf[:28]
-
-    if N != len(cf):
-        raise ValueError(f"System {sys} NAV data is not the same length as the number of fields.")
-
-    return cf
+    raw: list[str] = []
+    for i, ln in enumerate(lines):
+        ln = ln.rstrip("\r\n")
+        if i == len(lines) - 1:
+            ln = ln.rstrip()
+        vals = [ln[LF * k : LF * (k + 1)] for k in range(3 if i == 0 else 4)]
+        if sys == "C" and i == 5 and _num_fields(ln) == 2:
+            # some receivers omit the spare field between IDOT and BDTWeek, too
+            vals = [vals[0], "", vals[1], ""]
+        raw += vals
+
+    return raw
+
+
+def _compact_index(cf: list[str], raw: list[str], sys: str) -> list[int]:
+    """
+    indices of the fields of a record: without optional spare fields, or GPS "fit interval" field,
+    that are omitted
+    """
+
+    if not raw:
+        raise ValueError(f"System {sys} NAV data is not complete.")
+
+    return [
+        k
+        for k, c in enumerate(cf)
+        if raw[k] or not (c.startswith("spare") or (sys == "G" and c == "FitIntvl"))
+    ]
 
 
 def _fields(ln: str, sv_sys: str) -> list[str]:
-- 
2.43.0

