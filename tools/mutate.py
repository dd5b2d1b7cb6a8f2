#!/opt/venv/bin/python
"""Mutation campaign: small changes of pyzwave that the repository's tests let pass, against the checks.

  mutate.py survivors OUT.jsonl [--jobs 8]          changes which the tests do not notice
  mutate.py check OUT.jsonl RESULT.jsonl [--jobs 2] [--part i/n]   which checks notice them
Works on copies below /tmp; the checks are run from a copy of /verif.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import pathlib
import queue
import random
import shutil
import subprocess
import sys

REPO = pathlib.Path("/repo")
VERIF = pathlib.Path(__file__).resolve().parent.parent
ALWAYS = []
# the checks that deal with a file, nearest first; all others follow
NEAR = {
    "types.py": "C03 C02 C01 C24 C22 C27 C25",
    "message.py": "C01 C02 C22 C27 C13",
    "util.py": "C22 C20 C07 C02 C26 C27",
    "adapter.py": "C05 C07 C21 C29 C08",
    "zipconnection.py": "C05 C06 C07 C08 C09 C29 C04",
    "zipgateway.py": "C21 C08 C09 C28 C10 C29 C07",
    "connection.py": "C33 C08 C09 C28 C04 C05",
    "dtlsconnection.py": "C30",
    "application.py": "C10 C14 C08 C29",
    "node.py": "C11 C12 C13 C15 C16 C09 C10 C14 C07",
    "mailbox.py": "C18 C19",
    "persistantstorage.py": "C14 C15 C32",
    "CommandClass.py": "C16 C13 C11 C14 C15 C22 C27",
    "Association.py": "C17 C01 C02 C14",
    "AssociationGrpInfo.py": "C23 C01 C14",
    "Configuration.py": "C25 C01 C02 C14",
    "SensorMultilevel.py": "C13 C01 C16 C14",
    "Zip.py": "C01 C05 C08 C04",
    "Supervision.py": "C12 C01 C02",
    "Mailbox.py": "C18 C19 C01 C02",
    "NetworkManagementProxy.py": "C21 C01 C02",
    "NetworkManagementInclusion.py": "C21 C29 C01 C02 C24",
    "NodeProvisioning.py": "C01 C02 C24 C31",
}
ALL = ["C%02d" % i for i in range(1, 34)]


class Sites(ast.NodeVisitor):
    def __init__(self, source):
        self.source = source
        self.lines = source.splitlines(keepends=True)
        self.offsets = [0]
        for line in self.lines:
            self.offsets.append(self.offsets[-1] + len(line.encode()))
        self.raw = source.encode()
        self.out = []
        self.function = None

    def span(self, node):
        return (
            self.offsets[node.lineno - 1] + node.col_offset,
            self.offsets[node.end_lineno - 1] + node.end_col_offset,
        )

    def add(self, node, text, what):
        start, end = self.span(node)
        if self.raw[start:end].decode() != text:
            self.out.append({"line": node.lineno, "start": start, "end": end, "text": text, "what": what, "function": self.function, "old": self.raw[start:end].decode()})

    def seg(self, node):
        start, end = self.span(node)
        return self.raw[start:end].decode()

    def visit_FunctionDef(self, node):
        before = self.function
        self.function = node.name
        body = node.body
        for child in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(child)
        for child in node.decorator_list:
            pass
        self.block(body)
        self.function = before

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.block(node.body)

    def block(self, body):
        for i, child in enumerate(body):
            if i == 0 and isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant):
                continue
            self.visit(child)
        for first, second in zip(body, body[1:]):
            if isinstance(first, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(second, (ast.Expr, ast.Assign, ast.AugAssign)) and self.function:
                if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) or self.log(first) or self.log(second):
                    continue
                start, end = self.span(first)[0], self.span(second)[1]
                between = self.raw[self.span(first)[1] : self.span(second)[0]].decode()
                self.out.append({"line": first.lineno, "start": start, "end": end, "text": self.seg(second) + between + self.seg(first), "what": "swap statements", "function": self.function, "old": self.raw[start:end].decode()})

    @staticmethod
    def log(node):
        return "_LOGGER" in ast.dump(node)

    def generic_visit(self, node):
        for name, value in ast.iter_fields(node):
            if name in ("body", "orelse", "finalbody") and isinstance(value, list):
                self.block(value)
            elif isinstance(value, list):
                for item in value:
                    if isinstance(item, ast.AST):
                        self.visit(item)
            elif isinstance(value, ast.AST) and name not in ("annotation", "returns"):
                self.visit(value)

    def visit_Import(self, node):
        pass

    visit_ImportFrom = visit_Import

    def visit_Expr(self, node):
        if self.log(node) or isinstance(node.value, ast.Constant):
            return
        self.add(node, "pass", "drop statement")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if self.function and not self.log(node):
            self.add(node, "pass", "drop assignment")
        if isinstance(node.value, ast.Tuple) and getattr(node.targets[0], "id", "") == "attributes":
            for a, b in zip(node.value.elts, node.value.elts[1:]):
                start, end = self.span(a)[0], self.span(b)[1]
                between = self.raw[self.span(a)[1] : self.span(b)[0]].decode()
                self.out.append({"line": a.lineno, "start": start, "end": end, "text": self.seg(b) + between + self.seg(a), "what": "swap attributes", "function": None, "old": self.raw[start:end].decode()})
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "drop assignment")
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None:
            self.add(node, "return None", "return nothing")
            if isinstance(node.value, ast.Constant) and isinstance(node.value.value, bool):
                return self.visit(node.value)
        else:
            self.add(node, "pass", "go on instead of returning")
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.add(node, "pass", "do not raise")

    def visit_Continue(self, node):
        self.add(node, "pass", "drop continue")
        self.add(node, "break", "break for continue")

    def visit_Break(self, node):
        self.add(node, "pass", "drop break")
        self.add(node, "continue", "continue for break")

    def visit_If(self, node):
        self.add(node.test, "True", "if True")
        self.add(node.test, "False", "if False")
        self.add(node.test, "not (%s)" % self.seg(node.test), "negate")
        self.generic_visit(node)

    def visit_While(self, node):
        self.add(node.test, "False", "while False")
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node.test, "not (%s)" % self.seg(node.test), "negate")
        self.generic_visit(node)

    COMPARE = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            left, right = self.seg(node.left), self.seg(node.comparators[0])
            self.add(node, "%s %s %s" % (left, self.COMPARE[type(node.ops[0])], right), "comparison")
        self.generic_visit(node)

    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|"}

    def visit_BinOp(self, node):
        if not isinstance(node.left, ast.Constant) or not isinstance(node.left.value, str):
            if type(node.op) in self.BIN:
                self.add(node, "(%s %s %s)" % (self.seg(node.left), self.BIN[type(node.op)], self.seg(node.right)), "operator")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        other = " or " if isinstance(node.op, ast.And) else " and "
        self.add(node, "(" + other.join(self.seg(v) for v in node.values) + ")", "and/or")
        for i in range(len(node.values)):
            rest = [self.seg(v) for j, v in enumerate(node.values) if j != i]
            joined = (" and " if isinstance(node.op, ast.And) else " or ").join(rest)
            self.add(node, "(" + joined + ")", "drop operand")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, "(%s)" % self.seg(node.operand), "drop not")
        self.generic_visit(node)

    def visit_Constant(self, node):
        value = node.value
        if isinstance(value, bool):
            self.add(node, str(not value), "constant")
        elif isinstance(value, int):
            self.add(node, str(value + 1), "constant")
            if value:
                self.add(node, str(value - 1), "constant")
        elif value is None:
            pass

    def visit_Call(self, node):
        if self.log(node):
            return
        if len(node.args) >= 2:
            a, b = node.args[0], node.args[1]
            start, end = self.span(a)[0], self.span(b)[1]
            between = self.raw[self.span(a)[1] : self.span(b)[0]].decode()
            self.out.append({"line": a.lineno, "start": start, "end": end, "text": self.seg(b) + between + self.seg(a), "what": "swap arguments", "function": self.function, "old": self.raw[start:end].decode()})
        for keyword in node.keywords:
            if keyword.arg:
                start, end = self.span(keyword)
                tail = self.raw[end : self.span(node)[1]]
                cut = len(tail) - len(tail.lstrip(b" ,\n"))
                self.out.append({"line": keyword.lineno, "start": start, "end": end + (cut if b"," in tail[:cut] else 0), "text": "", "what": "drop argument", "function": self.function, "old": self.seg(keyword)})
        self.generic_visit(node)


def mutants():
    for path in sorted(REPO.glob("pyzwave/**/*.py")):
        rel = str(path.relative_to(REPO))
        if "const" in rel:
            continue
        source = path.read_text()
        sites = Sites(source)
        sites.block(ast.parse(source).body)
        seen = set()
        for site in sites.out:
            raw = source.encode()
            new = raw[: site["start"]] + site["text"].encode() + raw[site["end"] :]
            if new in seen:
                continue
            seen.add(new)
            try:
                if ast.dump(ast.parse(new)) == ast.dump(ast.parse(raw)):
                    continue
            except SyntaxError:
                continue
            yield dict(site, file=rel)


def put(copy, mutant):
    raw = (REPO / mutant["file"]).read_bytes()
    new = raw[: mutant["start"]] + mutant["text"].encode() + raw[mutant["end"] :]
    (copy / mutant["file"]).write_bytes(new)


def restore(copy, mutant):
    (copy / mutant["file"]).write_bytes((REPO / mutant["file"]).read_bytes())


def copies(count, kind):
    pool = queue.Queue()
    for i in range(count):
        where = pathlib.Path("/tmp/mut/%s%d" % (kind, i))
        shutil.rmtree(where, ignore_errors=True)
        shutil.copytree(REPO, where, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        pool.put(where)
    return pool


FAILING = []


def find_failing(copy):
    """Tests which fail without any change say nothing."""
    env = dict(os.environ, PYTHONPATH=str(copy), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    proc = subprocess.run(
        ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-rfE", "tests"],
        cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, check=False,
    )
    for line in proc.stdout.splitlines():
        if line.startswith(("FAILED ", "ERROR ")):
            FAILING.append("--deselect=" + line.split()[1])
    print(FAILING, proc.stdout.splitlines()[-1])


def tests_pass(copy):
    env = dict(os.environ, PYTHONPATH=str(copy), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        proc = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=30", *FAILING, "tests"],
            cwd=copy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90, check=False,
        )
    except subprocess.TimeoutExpired:
        return False
    return proc.returncode == 0


def survivors(args):
    pool = copies(args.jobs, "t")
    find_failing(pool.queue[0])
    if not tests_pass(pool.queue[0]):
        raise SystemExit("the tests fail without any change")
    todo = list(mutants())
    print(len(todo), "mutants", flush=True)

    def one(mutant):
        copy = pool.get()
        try:
            put(copy, mutant)
            return tests_pass(copy)
        finally:
            restore(copy, mutant)
            pool.put(copy)

    kept = 0
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex, open(args.out, "w") as out:
        for mutant, passed in zip(todo, ex.map(one, todo)):
            if passed:
                kept += 1
                out.write(json.dumps(mutant) + "\n")
                out.flush()
    print(kept, "survive the tests")


def check(args):
    verif = pathlib.Path("/tmp/mut/verif-%s" % args.part.replace("/", "-"))
    shutil.rmtree(verif, ignore_errors=True)
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "__pycache__", "evidence", "replays", "seeded"))
    pool = copies(args.jobs, "c%s-" % args.part.replace("/", "-"))
    todo = [json.loads(line) for line in open(args.out)]
    done = set()
    if os.path.exists(args.result):
        done = {(r["file"], r["start"], r["end"], r["text"]) for r in map(json.loads, open(args.result))}
    i, n = map(int, args.part.split("/"))
    random.Random(1).shuffle(todo)
    todo = [m for m in todo[i::n] if (m["file"], m["start"], m["end"], m["text"]) not in done]

    def one(mutant):
        copy = pool.get()
        try:
            put(copy, mutant)
            near = NEAR.get(pathlib.Path(mutant["file"]).name, "C01 C02 C16 C14 C27").split()
            order = near + [c for c in ALWAYS if c not in near]
            if args.all:
                order += [c for c in ALL if c not in order]
            odd = {}
            for prop in order:
                env = dict(os.environ, VERIF_REPO=str(copy), VERIF_SEED="1", VERIF_TIER="quick", VERIF_SCALE="0.35")
                try:
                    proc = subprocess.run(["/opt/venv/bin/python", str(verif / "check.py"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800, check=False, text=True)
                except subprocess.TimeoutExpired:
                    odd[prop] = "timeout"
                    continue
                if proc.returncode == 1:
                    what = [line for line in proc.stdout.splitlines() if line.startswith("violated")]
                    return dict(mutant, caught=prop, how=what[:1], odd=odd)
                if proc.returncode != 0:
                    odd[prop] = proc.stdout[-600:]
            return dict(mutant, caught=None, odd=odd)
        finally:
            restore(copy, mutant)
            pool.put(copy)

    with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex, open(args.result, "a") as out:
        for result in ex.map(one, todo):
            out.write(json.dumps(result) + "\n")
            out.flush()


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("mode", choices=["survivors", "check", "count"])
    parser.add_argument("out", nargs="?")
    parser.add_argument("result", nargs="?")
    parser.add_argument("--jobs", type=int, default=8)
    parser.add_argument("--part", default="0/1")
    parser.add_argument("--all", action="store_true")
    args = parser.parse_args()
    if args.mode == "count":
        print(len(list(mutants())))
    elif args.mode == "survivors":
        survivors(args)
    else:
        check(args)
    return 0


if __name__ == "__main__":
    sys.exit(main())
