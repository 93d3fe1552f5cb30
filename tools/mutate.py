#!/opt/venv/bin/python
"""Development aid: syntactic mutants of litevideo, and which of them no check reports.
[OPS=2] mutate.py FILE(relative to litevideo/) [OUT.jsonl] [stride]"""
import ast, glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}
BIN = {ast.BitAnd: "|", ast.BitOr: "&", ast.Add: "-", ast.Sub: "+", ast.BitXor: "|", ast.Mult: "+"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def add(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))
    doc = {id(n.body[0].value) for n in ast.walk(tree) if hasattr(n, "body") and isinstance(n.body, list) and n.body and isinstance(n.body[0], ast.Expr)}
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add(n, "(%s) %s (%s)" % (txt(n.left), CMP[type(n.ops[0])], txt(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, "(%s) %s (%s)" % (txt(n.left), BIN[type(n.op)], txt(n.right)), "bin")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Invert):
            add(n, "(%s)" % txt(n.operand), "not")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "const+1")
            if n.value:
                add(n, str(n.value - 1), "const-1")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr == "eq" and n.args:
                add(n, "Signal().eq(0)", "drop")
            elif isinstance(f, ast.Name) and f.id == "If" and n.args:
                add(n.args[0], "~(%s)" % txt(n.args[0]), "negate")
            elif isinstance(f, ast.Name) and f.id in ("Mux",):
                add(n, "Mux(%s, %s, %s)" % (txt(n.args[0]), txt(n.args[2]), txt(n.args[1])), "swapmux")
            elif isinstance(f, ast.Name) and f.id == "NextState":
                pass
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == "sync":
            add(n, txt(n.value), "domain")
        elif isinstance(n, ast.Constant) and type(n.value) is str and n.value in ("pix", "sys", "pix2x", "pix_o", "pix1p25x"):
            add(n, '"sys"' if n.value != "sys" else '"pix"', "dom-str")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, txt(n.value) + "." + SWAP[n.attr], "swapattr")
    return out


SWAP = {"hsync": "vsync", "vsync": "hsync", "valid": "ready", "r": "b", "cb": "cr", "cr": "cb", "first": "last", "c0": "c1", "g": "r", "b": "g"}


FLIP = {"TRUE": "FALSE", "FALSE": "TRUE", "MASTER": "SLAVE", "SLAVE": "MASTER", "DDR": "SDR", "SDR": "DDR", "NETWORKING": "MEMORY", "RETIMED": "NETWORKING",
        "IFD": "NONE", "IDATAIN": "IO", "VARIABLE": "FIXED", "STAY_AT_LIMIT": "WRAPAROUND", "WRAPAROUND": "STAY_AT_LIMIT", "SYNC": "ASYNC", "NONE": "C0"}


def near(a, b):
    """identifiers that differ in one short piece"""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    j = 0
    while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]:
        j += 1
    return a != b and max(len(a), len(b)) - i - j <= (6 if i + j >= 3 else 1) and i + j >= (1 if min(len(a), len(b)) <= 3 else 3)


def swaps(src):
    """the second family: neighbouring names, pins, statements and strings exchanged"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out = []

    def add(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))

    def two(x, y, what):
        (s, e), (t, f) = pos(x), pos(y)
        if e <= t and txt(x) != txt(y):
            out.append((x.lineno, what, (b[:s] + b[t:f] + b[e:t] + b[s:e] + b[f:]).decode()))
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        loc = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        att = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"})
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for o in loc:
                    if n.id in loc and near(n.id, o):
                        add(n, o, "name")
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self":
                for o in att:
                    if near(n.attr, o):
                        add(n, "self." + o, "attr")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Instance":
                kw = [k for k in n.keywords if k.arg]
                for d in ("i_", "o_", "p_"):
                    l = [k for k in kw if k.arg.startswith(d)]
                    for x, y in zip(l, l[1:]):
                        two(x.value, y.value, "pins")
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if nm in ("If", "Else", "Elif", "act"):
                    a = n.args[0 if nm == "Else" else 1:]
                    for x, y in zip(a, a[1:]):
                        two(x, y, "order")
                elif nm == "Cat" and len(n.args) > 1:
                    for x, y in zip(n.args, n.args[1:]):
                        two(x, y, "cat")
            if isinstance(n, ast.List):
                for x, y in zip(n.elts, n.elts[1:]):
                    two(x, y, "order")
            if isinstance(n, ast.Constant) and type(n.value) is str and n.value in FLIP:
                add(n, '"%s"' % FLIP[n.value], "string")
            if isinstance(n, ast.Constant) and type(n.value) is float:
                add(n, repr(n.value * 2 + 90.0 * (n.value == 0)), "float")
    return out


def main():
    rel = sys.argv[1]
    outp = sys.argv[2] if len(sys.argv) > 2 else "/tmp/w/mut%s_%s.jsonl" % (os.environ.get("OPS", ""), rel.replace("/", "_"))
    stride = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    ev = [json.load(open(p)) for p in glob.glob(ROOT + "/evidence/*.json")]
    chk = sorted((e["wall_s"], e["property"]) for e in ev if "litevideo/" + rel in e["coverage"]["source_files"])
    chk = [p for w, p in chk if p not in ("X01", "X03")] + [p for w, p in chk if p in ("X01", "X03")]
    src = open("/repo/litevideo/" + rel).read()
    ms = (swaps if os.environ.get("OPS") == "2" else mutants)(src)[::stride]

    def one(m):
        line, what, new = m
        d = tempfile.mkdtemp(dir="/tmp/w")
        try:
            try:
                ast.parse(new)
            except SyntaxError:
                return None
            shutil.copytree("/repo/litevideo", d + "/litevideo", ignore=shutil.ignore_patterns("__pycache__", "*.png", "*.jpg", "test"))
            open(d + "/litevideo/" + rel, "w").write(new)
            # private evidence directory
            shutil.copytree(ROOT, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
            res = {}
            for p in chk:
                if p in os.environ.get("SKIP", "").split() or p in ("X02",) and what in ("cmp", "bin", "not", "const+1", "const-1", "drop", "negate", "swapmux", "order", "cat"):
                    continue
                try:
                    r = subprocess.run(["/opt/venv/bin/python", d + "/verif/check.py", p], env=dict(os.environ, LV_REPO=d), capture_output=True, timeout=900).returncode
                except subprocess.TimeoutExpired:
                    r = "timeout"
                res[p] = r
                if r == 1:
                    break
            return dict(file=rel, line=line, what=what, res=res, text=new.split("\n")[line - 1].strip()[:150])
        finally:
            shutil.rmtree(d)
    kill = surv = odd = 0
    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex, open(outp, "w") as fh:
        for r in ex.map(one, ms):
            if r is None:
                continue
            v = set(r["res"].values())
            r["verdict"] = "killed" if 1 in v else "odd" if v - {0} else "survived"
            kill += r["verdict"] == "killed"
            surv += r["verdict"] == "survived"
            odd += r["verdict"] == "odd"
            fh.write(json.dumps(r) + "\n")
            fh.flush()
    print(rel, "checks", chk, "killed", kill, "survived", surv, "odd", odd)


main()
