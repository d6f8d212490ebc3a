"""writes MANIFEST.json from the check modules that exist (development aid)"""
import importlib, json, re
from pathlib import Path
R = Path(__file__).parent
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
import sys
sys.path.insert(0, str(R))
for p in props:
    i = p["id"]
    f = R / "mc" / "checks" / f"{i.lower()}.py"
    if f.is_file():
        src = f.read_text()
        lvl = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        m = importlib.import_module(f"mc.checks.{i.lower()}")
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash run.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}", "evidence_file": f"evidence/{i}.json",
                       "technique": getattr(m, "TECHNIQUE", "explicit enumeration of all bounded event histories, real code compared with a reference reader model on each"),
                       "level": lvl,
                       "level_note": getattr(m, "NOTE", "Exhaustive within the stated finite alphabets and depths; every model trace is replayed on the real "
                                                        "code of /repo. Trusts the renderer and reference model in mc/docs.py.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
d = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks drive the public API of the working tree in /repo/src. Thorough bounds are set by VERIF_TIER."}
(R / "MANIFEST.json").write_text(json.dumps(d, indent=1) + "\n")
