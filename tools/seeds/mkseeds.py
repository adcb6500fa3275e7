#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in seeds_*.py, with patches
against /repo's HEAD.  Nothing a check runs reads this or /verif/seeded.
Usage: mkseeds.py [id ...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))

def load():
    seeds = {}
    for f in sorted(glob.glob(HERE + "/seeds_*.py")):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds

def main():
    seeds = load()
    want = sys.argv[1:] or list(seeds)
    tmp = tempfile.mkdtemp(prefix="mkseeds")
    try:
        for i in want:
            s = seeds[i]
            wt = tmp + "/wt"
            subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", wt])
            for f, old, new in s["edits"]:
                p = os.path.join(wt, f)
                t = open(p).read()
                n = s.get("count", 1)
                if t.count(old) != n:
                    sys.exit("%s: %s: text found %d times: %r" % (i, f, t.count(old), old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.check_output(["git", "-C", wt, "diff"]).decode()
            d = V + "/seeded/" + i
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.cc", "w").write('#include "demo.h"\n' + s["demo"].lstrip("\n"))
            shutil.copy(HERE + "/demo.h", d + "/demo.h")
            sh = open(HERE + "/demo.sh").read()
            sh = sh.replace("@FLAGS@", s.get("flags", "")).replace("@PREFIX@", s.get("prefix", ""))
            sh = sh.replace("@SRCS@", s.get("srcs", "_build/libservice_control_client_lib.a _build/libdistribution_helper_lib.a"))
            open(d + "/demo.sh", "w").write(sh)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            open(d + "/meta.json", "a").write("\n")
            subprocess.check_call(["rm", "-rf", wt])
    finally:
        shutil.rmtree(tmp)

main()
