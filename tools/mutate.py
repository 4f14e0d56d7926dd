"""Plant many small bugs in copies of the code, to measure the checks (never run by a check).

usage: python3 tools/mutate.py OUT COVERAGE N [FILE...]

Mutants are made from the syntax tree (comparisons, operators, constants, calls, statements) at N
positions per line at most, chosen by hash. A mutant which passes the tests of the repository
is given to the checks which cover its line (COVERAGE/Cxx has lines 'file:line'), and OUT gets
one line of JSON per mutant.
"""
import ast
import concurrent.futures
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec  # noqa: E402

SCRATCH = "/tmp/mut"
WORKERS = int(os.environ.get("MUT_WORKERS", 4))
JOBS = os.environ.get("MUT_JOBS", "2")
CMP = {
    ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
    ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in",
}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*", ast.MatMult: "*"}
NAMES = {
    "min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any", "argmin": "argmax",
    "argmax": "argmin", "nanmin": "nanmax", "nanmax": "nanmin", "minimum": "maximum", "maximum": "minimum",
    "vstack": "hstack", "hstack": "vstack", "cos": "sin", "sin": "cos", "mean": "sum", "sum": "mean", "nanmean": "mean", "nansum": "sum",
    "round": "floor", "zeros": "ones", "ones": "zeros", "append": "extend", "rows": "cols", "width": "height", "x": "y", "y": "x",
    "imgsz": "sensorsz", "f": "c", "k": "p", "linear": "nearest", "left": "right", "startswith": "endswith", "xlim": "ylim", "ylim": "xlim",
    "logical_and": "logical_or", "logical_or": "logical_and", "abs": "float",
}


def mutants(source):
    """(line, column, description, new source) for every mutation."""
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = source.encode()

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def text(node):
        a, b = span(node)
        return data[a:b].decode()

    out = []

    def add(node, what, new, region=None):
        a, b = region or span(node)
        out.append((node.lineno, node.col_offset, what, (data[:a] + new.encode() + data[b:]).decode()))

    parents = {}
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            parents[child] = node
    skip = set()
    for node in ast.walk(tree):
        # Not documentation, annotations or messages
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            skip.update(ast.walk(node))
        if isinstance(node, ast.arg) and node.annotation:
            skip.update(ast.walk(node.annotation))
        if isinstance(node, (ast.FunctionDef,)) and node.returns:
            skip.update(ast.walk(node.returns))
        if isinstance(node, ast.AnnAssign):
            skip.update(ast.walk(node.annotation))
        if isinstance(node, ast.Raise):
            for child in ast.iter_child_nodes(node):
                skip.update(ast.walk(child))
        if isinstance(node, ast.Call) and text(node.func) in ("print", "warnings.warn", "sys.stdout.write"):
            skip.update(ast.walk(node))
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(node))
        if isinstance(node, ast.If) and text(node.test) == "TYPE_CHECKING":
            skip.update(ast.walk(node))
    inside = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            for child in ast.walk(node):
                if child is not node:
                    inside.add(child)
    for node in ast.walk(tree):
        if node in skip or node not in inside or not hasattr(node, "lineno"):
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = text(node.left), text(node.comparators[0])
            if "\n" not in text(node):
                add(node, f"compare {text(node)}", f"{a} {CMP[type(node.ops[0])]} {b}")
        elif isinstance(node, ast.BinOp) and type(node.op) in OPS and "\n" not in text(node):
            if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                region = (span(node.left)[1], span(node.right)[0])
                gap = data[region[0] : region[1]].decode()
                old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.Pow: "**", ast.MatMult: "@"}[type(node.op)]
                add(node, f"operator {text(node)}", gap.replace(old, OPS[type(node.op)], 1), region)
        elif isinstance(node, ast.BoolOp):
            a, b = span(node.values[0])[1], span(node.values[1])[0]
            gap = data[a:b].decode()
            old, new = ("and", "or") if isinstance(node.op, ast.And) else ("or", "and")
            if old in gap:
                add(node, f"boolean {text(node)}", gap.replace(old, new), (a, b))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            add(node, f"drop {text(node)}", text(node.operand))
        elif isinstance(node, ast.Constant) and not isinstance(parents.get(node), (ast.JoinedStr, ast.FormattedValue)):
            v = node.value
            if v is True or v is False:
                add(node, f"constant {v}", str(not v))
            elif v is None:
                pass
            elif isinstance(v, int):
                add(node, f"constant {v}", str(v + 1))
                if v == 1:
                    add(node, f"constant {v}", "0")
            elif isinstance(v, float):
                add(node, f"constant {v}", str(v * 2 + 0.1))
        elif isinstance(node, ast.Call):
            for k, kw in enumerate(node.keywords):
                if kw.arg is None:
                    continue
                before = [*node.args, *(x.value for x in node.keywords[:k])]
                if before:
                    start = span(before[-1])[1]
                    end = span(kw.value)[1]
                else:
                    start = span(node.func)[1] + 1
                    end = span(kw.value)[1]
                    rest = data[end : span(node)[1]].decode()
                    if rest.lstrip().startswith(","):
                        end += rest.index(",") + 1
                add(kw.value, f"drop argument {kw.arg} of {text(node.func)}", "", (start, end))
            name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", None)
            if isinstance(node.func, ast.Attribute) and name in ("copy", "squeeze", "astype", "reshape", "ravel", "flatten") and len(node.args) + len(node.keywords) < 2:
                add(node, f"drop {name} of {text(node)}", text(node.func.value))
            if len(node.args) == 1 and not node.keywords and (text(node.func) in ("np.array", "np.asarray", "np.atleast_2d", "copy.copy", "copy.deepcopy", "float", "int", "abs", "np.abs", "np.sqrt", "tuple", "list", "np.floor", "np.ceil", "np.round", "np.radians", "np.flipud", "reversed", "sorted", "np.unique", "np.sort")):
                add(node, f"unwrap {text(node)}", text(node.args[0]))
            if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                a, b = node.args
                add(node, f"swap arguments of {text(node)}", text(b) + data[span(a)[1] : span(b)[0]].decode() + text(a), (span(a)[0], span(b)[1]))
        elif isinstance(node, ast.Attribute) and node.attr in NAMES:
            end = span(node)[1]
            add(node, f"name {text(node)}", NAMES[node.attr], (end - len(node.attr), end))
        elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in NAMES and node.id not in "xyfk":
            add(node, f"name {node.id}", NAMES[node.id])
        elif isinstance(node, ast.IfExp):
            add(node, f"choose {text(node)}", text(node.body))
            add(node, f"choose other {text(node)}", text(node.orelse))
        elif isinstance(node, ast.Slice) and (node.lower or node.upper):
            if node.lower is not None and node.upper is None and not node.step:
                add(node, f"slice {text(node)}", ":")
            elif node.upper is not None and node.lower is None and not node.step:
                add(node, f"slice {text(node)}", ":")
        if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                # Often undefined otherwise
                pass
            else:
                add(node, f"delete {text(node)}", "pass")
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                add(node, f"delete {text(node)}", "pass")
        if isinstance(node, ast.AugAssign) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            a, b = span(node.target)[1], span(node.value)[0]
            gap = data[a:b].decode()
            for x, y in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*=")):
                if x in gap:
                    add(node, f"operator {text(node)}", gap.replace(x, y), (a, b))
                    break
        if isinstance(node, (ast.If, ast.While)):
            add(node.test, f"never {text(node.test)}", "False")
            if isinstance(node, ast.If):
                add(node.test, f"always {text(node.test)}", "True")
    good = []
    for m in out:
        try:
            if ast.dump(ast.parse(m[3])) != ast.dump(tree):
                good.append(m)
        except SyntaxError:
            pass
    return good


def chosen(files, n, again):
    out = []
    for file in files:
        with open(f"{spec.HERE}/../repo/src/glimpse/{file}") as fp:
            source = fp.read()
        by_line = {}
        for m in mutants(source):
            by_line.setdefault(m[0], []).append(m)
        for line, ms in sorted(by_line.items()):
            ms.sort(key=lambda m: hashlib.sha1(f"{file}{m[:3]}".encode()).hexdigest())
            for m in ms[again : again + n]:
                out.append((file, *m))
    out.sort(key=lambda m: hashlib.sha1(f"order{m[:4]}".encode()).hexdigest())
    return out


def env(copy):
    return {
        "PATH": os.environ["PATH"], "HOME": "/root", "LANG": "C.UTF-8", "MPLBACKEND": "agg", "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0", "MPLCONFIGDIR": "/opt/vp/mplconfig", "PYTHONPATH": f"{copy}/src", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "VERIF_REPO": copy, "VERIF_JOBS": JOBS, "VERIF_SEED": "1",
    }


def judge(copy, mutant, order):
    file, line, col, what, source = mutant
    path = f"{copy}/src/glimpse/{file}"
    with open(path) as fp:
        original = fp.read()
    try:
        with open(path, "w") as fp:
            fp.write(source)
        try:
            run = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "--doctest-modules", "src", "tests", "--disable-warnings"],
                cwd=copy, env=env(copy), capture_output=True, timeout=120,
            )
        except subprocess.TimeoutExpired:
            return "tests", None
        if run.returncode:
            return "tests", None
        seen = []
        for check in order:
            start = time.time()
            try:
                run = subprocess.run(
                    ["bash", f"{SCRATCH}/verif/run.sh", check, "quick"], env=env(copy), capture_output=True, timeout=900,
                )
            except subprocess.TimeoutExpired:
                return "hang", check
            seen.append((check, run.returncode, round(time.time() - start)))
            if run.returncode == 1:
                return "caught", check
            if run.returncode:
                return "error", check
        return "SURVIVED", seen
    finally:
        with open(path, "w") as fp:
            fp.write(original)


def main():
    out, coverage, n = sys.argv[1:4]
    n, again = (int(n), 0) if "+" not in n else (int(n.split("+")[0]), int(n.split("+")[1]))
    files = sys.argv[4:]
    cover, cost = {}, {}
    for check in sorted(os.listdir(coverage)):
        with open(f"{coverage}/{check}") as fp:
            for row in fp:
                cover.setdefault(row.strip(), set()).add(check)
    owners = {p["id"]: set(p["files"]) for p in spec.P}
    done = set()
    if os.path.exists(out):
        with open(out) as fp:
            done = {tuple(json.loads(row)["id"]) for row in fp}
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    shutil.copytree(spec.HERE, f"{SCRATCH}/verif", ignore=shutil.ignore_patterns(".git", "out", "seeded"))
    copies = queue.Queue()
    for k in range(WORKERS):
        shutil.copytree("/repo", f"{SCRATCH}/w{k}", ignore=shutil.ignore_patterns(".git"))
        copies.put(f"{SCRATCH}/w{k}")
    wins = {}

    def work(mutant):
        file, line, col, what, _ = mutant
        checks = cover.get(f"{file}:{line}", set())
        mine = [c for c in checks if f"src/glimpse/{file}" in owners.get(c, ())]
        mine.sort(key=lambda c: (-wins.get((file, line // 40, c), 0), -wins.get((file, c), 0), c))
        copy = copies.get()
        try:
            verdict, by = judge(copy, mutant, mine)
        finally:
            copies.put(copy)
        if verdict == "caught":
            wins[file, line // 40, by] = wins.get((file, line // 40, by), 0) + 1
            wins[file, by] = wins.get((file, by), 0) + 1
        with open(out, "a") as fp:
            fp.write(json.dumps({"id": [file, line, col, what], "verdict": verdict if checks else "uncovered " + verdict, "by": by}) + "\n")

    with concurrent.futures.ThreadPoolExecutor(WORKERS) as pool:
        todo = [m for m in chosen(files, n, again) if m[:4] not in done]
        print(len(todo), "mutants", flush=True)
        list(pool.map(work, todo))


if __name__ == "__main__":
    main()
