#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILE...: small changes of the code, filtered by the stable tests, run against the checks
(a development tool, not used by any check).  Works on copies of /repo under /tmp/mut; --list only counts."""
import ast, json, os, re, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
BASE = os.environ.get("MUT_BASE", "/repo")
S, K = "wip/setenvironment/src/setenvironment/", "wip/"
FILES = {
    "src/configparserenhanced/ConfigParserEnhanced.py": (["core", "setenvironment", "keywordparser"], "C06 C01 C03 C07 C10 C12 C09 C08 C05 C04 C02 C14".split()),
    "src/configparserenhanced/ExceptionControl.py": (["core"], ["C11"]),
    "src/configparserenhanced/Debuggable.py": (["core"], ["C14"]),
    "src/configparserenhanced/TypedProperty.py": (["core"], ["C13"]),
    "src/configparserenhanced/HandlerParameters.py": (["core"], ["C03", "C13"]),
    S + "SetEnvironment.py": (["setenvironment"], ["S01", "S02", "S03", "S04"]),
    S + "ModuleHelper.py": (["setenvironment"], ["S05", "S06", "S04"]),
    K + "keywordparser/keywordparser/KeywordParser.py": (["keywordparser", "genconfig"], ["K01", "K03", "K04"]),
    K + "keywordparser/keywordparser/FormattedMsg.py": (["keywordparser", "genconfig"], ["K01", "K04", "K06"]),
    K + "determinesystem/determinesystem/DetermineSystem.py": (["determinesystem"], ["K02"]),
    K + "loadenv/loadenv/EnvKeywordParser.py": ([], ["K04", "K05"]),
    K + "genconfig/src/config_keyword_parser.py": (["genconfig"], ["K03", "K06"]),
    K + "loadenv/load_env.py": ([], ["K05", "K07"]),
    K + "genconfig/gen_config.py": ([], ["K06", "K07"]),
}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
        ast.Is: "is not", ast.IsNot: "is"}
QUIET = ("debug_message", "print", "add_argument", "get_formatted_msg", "get_msg_for_list", "dedent")


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda l, c: starts[l - 1] + c
    seg = lambda n: raw[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def add(n, new, kind):
        a, b = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        out.append((n.lineno, kind, seg(n)[:60], (raw[:a] + new.encode() + raw[b:]).decode()))

    def visit(n):
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in QUIET:
                return
            if name in ("lower", "strip", "upper", "copy", "keys", "resolve", "expandvars") and isinstance(f, ast.Attribute) and not n.args:
                add(n, seg(f.value), "drop ." + name)
            if name in ("list", "deepcopy", "copy", "sorted", "tuple", "str", "Path", "reversed", "escape") and len(n.args) == 1:
                add(n, seg(n.args[0]), "drop " + name + "()")
        if isinstance(n, ast.Raise):
            add(n, "pass", "del raise"); return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "(%s %s %s)" % (seg(n.left), SWAP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                op2 = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + op2.join("(" + seg(v) + ")" for v in rest) + ")", "drop cond")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + seg(n.operand) + ")", "not")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False: add(n, str(not v), "const")
            elif isinstance(v, int): add(n, str(v + 1), "const")
            elif isinstance(v, str) and len(v) < 4: add(n, repr(v + "x" if v == "" else ""), "const")
            elif v is None: pass
        if isinstance(n, (ast.If, ast.While)):
            if not isinstance(n.test, ast.Compare): add(n.test, "(not (%s))" % seg(n.test), "negate")
            add(n.test, "False", "if False"); 
            if isinstance(n, ast.If): add(n.test, "True", "if True")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            add(n, "pass", "del stmt")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            if (f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")) not in QUIET: add(n, "pass", "del call")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, "return None", "ret None")
        if isinstance(n, ast.Break): add(n, "pass", "del break")
        if isinstance(n, ast.Continue): add(n, "pass", "del continue")
        body = getattr(n, "body", None)
        doc = None
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc = body[0]
        for c in ast.iter_child_nodes(n):
            if c is doc or isinstance(c, ast.JoinedStr): continue
            visit(c)
    visit(tree)
    good = []
    for m in out:
        try:
            compile(m[3], path, "exec"); good.append(m)
        except SyntaxError:
            pass
    return good


def main():
    out, files = sys.argv[1], [a for a in sys.argv[2:] if a != "--list"]
    files = files or list(FILES)
    files = [f for f in FILES if any(f.endswith(x) for x in files)]
    if "--list" in sys.argv:
        for f in files: print(f, len(mutants(BASE + "/" + f)))
        return
    done = {}
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["kind"], r["old"], r["n"]): r for r in map(json.loads, open(out))}
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    nw = 6
    for i in range(nw):
        if not os.path.exists("%s/r%d" % (W, i)): shutil.copytree(BASE, "%s/r%d" % (W, i), symlinks=True)
        R = "%s/r%d" % (W, i)
        subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."]) if os.path.isdir(R + "/.git") else None
    todo, alive = queue.Queue(), queue.Queue()
    for f in files:
        seen = {}
        for line, kind, old, text in mutants(BASE + "/" + f):
            n = seen[(line, kind, old)] = seen.get((line, kind, old), -1) + 1
            if (f, line, kind, old, n) not in done: todo.put((f, line, kind, old, n, text))
    lock = threading.Lock()

    def record(f, line, kind, old, n, status, **kw):
        with lock, open(out, "a") as F:
            F.write(json.dumps(dict(file=f, line=line, kind=kind, old=old, n=n, status=status, **kw)) + "\n")

    def tests(R, suites, tag):
        t = open("/opt/vp/test.sh").read().replace("/repo", R)
        keep = [l for l in t.splitlines() if not l.startswith("run ") or l.split()[1] in suites]
        open("%s/t%s.sh" % (W, tag), "w").write("\n".join(keep))
        res = "%s/t%s.json" % (W, tag)
        try:
            subprocess.run(["bash", "%s/t%s.sh" % (W, tag), res], capture_output=True, timeout=120)
            return set(json.load(open(res))["passed"])
        except Exception:
            return set()
    base = {}

    def worker(i):
        R = "%s/r%d" % (W, i)
        while True:
            try: f, line, kind, old, n, text = todo.get_nowait()
            except queue.Empty: return
            suites = FILES[f][0]
            orig = open(BASE + "/" + f).read()
            if suites:
                key = tuple(suites)
                with lock:
                    if key not in base: base[key] = tests(R, suites, i) & stable
                open(R + "/" + f, "w").write(text)
                miss = base[key] - tests(R, suites, i)
                open(R + "/" + f, "w").write(orig)
                if miss:
                    record(f, line, kind, old, n, "tests"); continue
            alive.put((f, line, kind, old, n, text))
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(nw - 1)]
    for t in ths: t.start()
    R = "%s/r%d" % (W, nw - 1)
    while any(t.is_alive() for t in ths) or not alive.empty():
        try: f, line, kind, old, n, text = alive.get(timeout=1)
        except queue.Empty: continue
        orig = open(BASE + "/" + f).read()
        open(R + "/" + f, "w").write(text)
        status, by = "MISSED", None
        for p in FILES[f][1]:
            try: rc = subprocess.run(["python3", "check.py", p], cwd=os.environ.get("MUT_VERIF", HERE), capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_REPO=R))
            except subprocess.TimeoutExpired: status, by = "timeout", p; break
            if rc.returncode == 1: status, by = "caught", p; break
            if rc.returncode != 0: status, by = "error", p + " " + rc.stdout[-200:] + rc.stderr[-200:]; 
        open(R + "/" + f, "w").write(orig)
        record(f, line, kind, old, n, status, by=by)


main()
