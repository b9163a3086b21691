"""Development helper: mutate functions that checks encode, keep mutants that pass the stable tests, run the checks on them.
usage: mutate.py N SEED [path-substring]      works in /tmp/mut (a copy of /repo); results in /tmp/mut_results.jsonl"""
import ast, copy, json, os, random, shutil, subprocess, sys, glob, time

N, SEED = int(sys.argv[1]), int(sys.argv[2])
SUB = sys.argv[3] if len(sys.argv) > 3 else ""
W = "/tmp/mut"
OUT = "/tmp/mut_results.jsonl"
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
fmap = {}
cost = {}
for f in glob.glob("/verif/evidence/C*.json"):
    e = json.load(open(f))
    pid = e.get("property") or os.path.basename(f)[:-5]
    cov = e["coverage"]
    for fn in cov["functions_encoded"]:
        if "<module>" in fn or "<generic" in fn:
            continue
        fmap.setdefault(fn, set()).add(pid)
    cost[pid] = e.get("wall_s") or cov.get("wall_s") or sum(h["wall_s"] for h in cov["harnesses"])


class Site(ast.NodeTransformer):
    """enumerate / apply mutations inside one function"""

    def __init__(self, target=None):
        self.target, self.n, self.desc = target, 0, None

    def hit(self, desc):
        self.n += 1
        if self.n - 1 == self.target:
            self.desc = desc
            return True
        return False

    def visit_Compare(self, node):
        self.generic_visit(node)
        sw = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.NotEq: [ast.Eq]}
        if len(node.ops) == 1:
            for o in sw.get(type(node.ops[0]), []):
                if self.hit(f"cmp {type(node.ops[0]).__name__}->{o.__name__}"):
                    node.ops = [o()]
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        o = sw.get(type(node.op))
        if o and not isinstance(node.left, ast.JoinedStr) and self.hit(f"binop {type(node.op).__name__}"):
            node.op = o()
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit("boolop swap"):
            node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        elif self.hit("boolop drop last"):
            return node.values[0] if len(node.values) == 2 else ast.BoolOp(node.op, node.values[:-1])
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not) and self.hit("drop not"):
            return node.operand
        return node

    def visit_Constant(self, node):
        if type(node.value) in (int, float) and not isinstance(node.value, bool):
            if self.hit(f"const {node.value}+1"):
                return ast.Constant(node.value + 1)
        elif isinstance(node.value, bool):
            if self.hit(f"const not {node.value}"):
                return ast.Constant(not node.value)
        return node

    def visit_Name(self, node):
        sw = {"min": "max", "max": "min", "any": "all", "all": "any"}
        if node.id in sw and isinstance(node.ctx, ast.Load) and self.hit(f"{node.id} swap"):
            return ast.Name(sw[node.id], node.ctx)
        return node

    PAIRS = [("start", "end"), ("suction", "discharge"), ("minimum", "maximum"), ("min", "max"), ("first", "last"), ("inlet", "outlet"), ("lower", "upper"), ("power", "energy_usage"), ("rate", "head"), ("left", "right")]

    def visit_Attribute(self, node):
        self.generic_visit(node)
        for a, b in self.PAIRS:
            for x, y in ((a, b), (b, a)):
                if x in node.attr.split("_") and self.hit(f"attr {node.attr}"):
                    return ast.Attribute(node.value, "_".join(y if w == x else w for w in node.attr.split("_")), node.ctx)
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if self.hit("if True"):
            node.test = ast.Constant(True)
        elif self.hit("if False"):
            node.test = ast.Constant(False)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if isinstance(node.targets[0], (ast.Subscript, ast.Attribute)) and self.hit("drop assign"):
            return ast.Pass()
        return node

    def visit_Expr(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Call) and "logger" not in ast.unparse(node.value.func) and self.hit("drop call"):
            return ast.Pass()
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.hit("aug->assign"):
            return ast.Assign([node.target], node.value)
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_AnnAssign(self, node):
        if node.value:
            node.value = self.visit(node.value)
        return node

    def visit_Raise(self, node):
        return node


def find(tree, qual):
    parts = [p for p in qual.split(".") if p != "<locals>"]
    cur = tree
    for p in parts:
        nxt = None
        for n in ast.walk(cur) if cur is not tree else tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == p and n is not cur:
                nxt = n
                break
        if nxt is None:
            return None
        cur = nxt
    return cur if isinstance(cur, ast.FunctionDef) else None


def main():
    subprocess.run(["rm", "-rf", W])
    subprocess.run(["cp", "-a", "/repo", W])
    rng = random.Random(SEED)
    fns = sorted(f for f in fmap if SUB in f)
    done = 0
    log = open(OUT, "a")
    while done < N:
        fn = rng.choice(fns)
        file, qual = fn.rsplit(":", 1)
        p = f"{W}/src/{file}"
        try:
            src = open(f"/repo/src/{file}").read()
        except OSError:
            continue
        tree = ast.parse(src)
        node = find(tree, qual)
        if node is None:
            continue
        c = Site()
        c.visit(copy.deepcopy(node))
        if not c.n:
            continue
        k = rng.randrange(c.n)
        m = Site(k)
        old = ast.unparse(node)
        m.visit(node)
        ast.fix_missing_locations(tree)
        if ast.unparse(node) == old:
            continue
        open(p, "w").write(ast.unparse(tree))
        try:
            diff = [l for l in __import__("difflib").unified_diff(old.splitlines(), ast.unparse(node).splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
            done += 1
            rec = {"fn": fn, "desc": m.desc, "diff": diff, "checks": sorted(fmap[fn])}
            env = {**os.environ, "PYTHONPATH": f"{W}/src", "ECALC_SRC": f"{W}/src"}
            r = subprocess.run("rm -rf /tmp/mutw; mkdir /tmp/mutw; timeout 300 /opt/venv/bin/python -m pytest -q -n 6 -p no:cacheprovider --timeout=120 --tb=no --continue-on-collection-errors --basetemp=/tmp/mutw/t -o junit_family=xunit2 --junitxml=/tmp/mutw/j.xml >/dev/null 2>&1; python3 /opt/vp/results.py /tmp/mutw/o.json junit:/tmp/mutw/j.xml", shell=True, cwd=W, env=env)
            try:
                missing = stable - set(json.load(open("/tmp/mutw/o.json"))["passed"])
            except Exception:
                missing = {"all"}
            rec["tests_broken"] = len(missing)
            if not missing:
                rec["results"] = {}
                rec["caught"] = None
                for pid in sorted(fmap[fn], key=lambda c: cost.get(c, 50)):
                    r = subprocess.run(["python3", "run_check.py", pid], cwd="/verif", env={k: v for k, v in env.items() if k != "PYTHONPATH"}, capture_output=True, text=True)
                    rec["results"][pid] = r.returncode
                    if r.returncode == 1:
                        rec["caught"] = pid
                        break
            log.write(json.dumps(rec) + "\n")
            log.flush()
            if not missing:
                print(("CAUGHT " + rec["caught"]) if rec["caught"] else "MISSED", fn, m.desc, diff, rec["checks"], flush=True)
        finally:
            open(p, "w").write(src)


main()
