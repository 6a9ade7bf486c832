#!/usr/bin/env python3
"""coverage.py [P01 ...] [--runs N]: which lines of /repo the simulated runs
execute, measured with clang source coverage in a separate build.  Prints a
per-file summary and leaves the annotated listing in build-cov/listing.txt."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/sim"]
import check, props
args = sys.argv[1:]
secs = 10
if "--time" in args:
    i = args.index("--time"); secs = float(args[i + 1]); del args[i:i + 2]
check.build(["cov"])
out = V + "/build/cov-data"
subprocess.run(["rm", "-rf", out]); os.makedirs(out)
os.environ["LLVM_PROFILE_FILE"] = out + "/%8m.profraw"
for p in args or sorted(props.PROPS):
    tot, runs, _ = check.batch(p, "cov", 1, secs, out)
    print(p, tot["runs"], "runs", len(runs), "reported", flush=True)
raw = [out + "/" + f for f in os.listdir(out) if f.endswith(".profraw")]
subprocess.run(["llvm-profdata", "merge", "-o", out + "/all.profdata"] + raw, check=True)
b = [V + "/build/sim_cov", "-instr-profile=" + out + "/all.profdata", "--ignore-filename-regex=/usr/|/verif/|build/gen"]
subprocess.run(["llvm-cov", "report"] + b)
with open(out + "/listing.txt", "w") as f:
    subprocess.run(["llvm-cov", "show"] + b + ["--show-branches=count"], stdout=f)
