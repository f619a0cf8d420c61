#!/opt/venv/bin/python
"""coverage.py DIRECTORY: lines of /repo/parallel_control that no check has executed (run the checks with VERIF_COV=DIRECTORY)."""
import ast, glob, json, os, sys
repo = os.environ.get("VERIF_REPO", "/repo")
seen = {tuple(x) for f in glob.glob(os.path.join(sys.argv[1], "*.json")) for x in json.load(open(f))}
tot = hit = 0
for f in sorted(glob.glob(os.path.join(repo, "parallel_control", "*.py"))):
    src = open(f).read()
    lines = set()

    def walk(c):
        lines.update(n for _, _, n in c.co_lines() if n)
        for k in c.co_consts:
            if hasattr(k, "co_code"):
                walk(k)
    walk(compile(src, f, "exec"))
    doc = {n.lineno + i for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
           for i in range(n.end_lineno - n.lineno + 1)}
    lines -= doc
    b = os.path.basename(f)
    miss = sorted(n for n in lines if (b, n) not in seen and n > 0)
    tot += len(lines)
    hit += len(lines) - len(miss)
    runs = []
    for n in miss:
        if runs and n - runs[-1][1] <= 2:
            runs[-1][1] = n
        else:
            runs.append([n, n])
    print(f"{b:32} {len(lines) - len(miss):5}/{len(lines):5}  " + " ".join(f"{a}-{b}" if a != b else str(a) for a, b in runs))
print("total", hit, "/", tot)
