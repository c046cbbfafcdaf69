"""Mutation campaign (development aid): which small changes of the code does no check notice?

usage: mutate.py list SEED N OUT.json [WHAT]    draw N mutants (all of the kinds matching WHAT)
       mutate.py run MUTANTS.json K OF LOG      try every K-th of OF (inside tools/iso.sh: edits /repo)
"""
import ast
import json
import os
import random
import re
import subprocess
import sys
import time

REPO = "/repo"
ORDER = {
    "geoana/earthquake/oksar.py": "P20 P17 P16 P18", "geoana/em/base.py": "P18 P15 P17 P13 P04 P07 P14 P16", "geoana/em/fdem/base.py": "P13 P18 P07 P17 P15",
    "geoana/em/fdem/halfspace.py": "P10 P15 P18 P17 P19", "geoana/em/fdem/layered.py": "P10 P18 P17 P15 P16 P19", "geoana/em/fdem/simple_functions.py": "P12 P10 P15 P18",
    "geoana/em/fdem/wholespace.py": "P07 P09 P15 P18 P17", "geoana/em/static/freespace.py": "P02 P04 P05 P15 P18 P17 P16", "geoana/em/static/halfspace.py": "P05 P15 P18 P17 P16 P19",
    "geoana/em/static/sphere.py": "P06 P15 P18 P17 P16 P19", "geoana/em/static/wholespace.py": "P04 P05 P15 P18 P17 P16 P19", "geoana/em/tdem/base.py": "P13 P18 P08 P17",
    "geoana/em/tdem/halfspace.py": "P12 P15 P18", "geoana/em/tdem/reference.py": "P12", "geoana/em/tdem/simple_functions.py": "P12 P15 P18", "geoana/em/tdem/wholespace.py": "P08 P09 P15 P18",
    "geoana/gravity.py": "P01 P15 P18 P17 P16", "geoana/kernels/potential_field_prism.py": "P03 P16", "geoana/kernels/tranverse_electric_reflections.py": "P11 P10 P16",
    "geoana/plotting_utils.py": "P21", "geoana/shapes.py": "P01 P02 P18 P17 P16", "geoana/spatial.py": "P14 P04 P16", "geoana/utils.py": "P22 P15 P16",
    "geoana/kernels/_extensions/potential_field_prism.pyx": "P03 P01 P02", "geoana/kernels/_extensions/rTE.pyx": "P11 P10 P16", "geoana/kernels/_extensions/_rTE.cpp": "P11 P10",
}
ALL = [f"P{k:02d}" for k in range(1, 23)]
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            out.add(id(n.value))
    return out


def text_mutants(path):
    """Mutants of C++ and Cython sources, by patterns."""
    src = open(f"{REPO}/{path}").read()
    out, pos, doc = [], 0, False
    pats = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" >= ", [" > "]), (r" <= ", [" < "]),
            (r"\b0\.0\b|\b0\.(?!\d)", ["1.0", "1e-3"]), (r"\b[1-9]\d*\.\d*", ["1.001*{}"]), (r"\b[1-9]\b", ["({}+1)"]), (r"\b0\b", ["1"]), (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"\band\b|&&", [" or "]), (r"\bor\b|\|\|", [" and "]),
            (r"\blog\(", ["log1p("]), (r"\batan2\(", ["-atan2("]), (r"\batan\(", ["-atan("]), (r"\bsqrt\(", ["fabs("])]
    for no, ln in enumerate(src.splitlines(keepends=True), 1):
        if ln.count('"""') % 2:
            doc = not doc
        body = re.split(r"//|#", ln)[0]
        if not doc and '"""' not in ln and "import" not in ln and "cimport" not in ln:
            for pat, reps in pats:
                for m in re.finditer(pat, body):
                    for rep in reps:
                        a = len(src[:pos].encode()) + m.start()
                        b = a + m.end() - m.start()
                        out.append(dict(file=path, a=a, b=b, text=rep.replace("{}", m.group(0)), what=f"{m.group(0)} to {rep}", line=no, old=ln.strip()))
        pos += len(ln)
    return out


def mutants(path):
    if not path.endswith(".py"):
        return text_mutants(path)
    src = open(f"{REPO}/{path}").read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def at(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    docs = docstrings(tree)
    names = {id(x) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "__all__" for x in ast.walk(n)}
    docs |= names
    skip = set()  # messages of errors and f-strings
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
    out = []

    def add(a, b, text, what, line):
        out.append(dict(file=path, a=a, b=b, text=text, what=what, line=line, old=raw[a:b].decode()))
    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Expr) and id(n.value) in docs:
            continue
        if isinstance(n, ast.Raise):
            a, b = at(n)
            add(a, b, "pass", "drop raise", n.lineno)
            continue
        if id(n) in skip:
            continue
        if isinstance(n, ast.FunctionDef) and any(getattr(d, "attr", "") == "setter" for d in n.decorator_list):
            last, ifs = n.body[-1], [k for k in n.body if isinstance(k, ast.If)]
            if isinstance(last, ast.Assign) and ifs:
                a, (x, y) = at(ifs[-1])[0], at(last)
                add(a, a, raw[x:y].decode() + "\n" + " " * ifs[-1].col_offset, "assigned before validation", n.lineno)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = at(n.left)[1], at(n.comparators[0])[0]
            for op in CMP.get(type(n.ops[0]), []):
                add(l, r, f" {op} ", f"compare {op}", n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            l, r = at(n.left)[1], at(n.right)[0]
            gap = raw[l:r].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
            if gap.count(sym) == 1:
                for op in BIN[type(n.op)]:
                    add(l, r, gap.replace(sym, op), f"binary {sym} to {op}", n.lineno)
        elif isinstance(n, ast.UnaryOp):
            a, b = at(n)
            o = at(n.operand)[0]
            if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                add(a, o, "", "drop unary", n.lineno)
        elif isinstance(n, ast.Constant):
            a, b = at(n)
            v = n.value
            if isinstance(v, bool):
                add(a, b, str(not v), "flip bool", n.lineno)
            elif isinstance(v, int):
                add(a, b, str(v + 1), "int + 1", n.lineno)
                if v:
                    add(a, b, str(v - 1), "int - 1", n.lineno)
            elif isinstance(v, float):
                add(a, b, repr(v * 1.001 if v else 1e-3), "float a little", n.lineno)
                add(a, b, repr(v * 2 if v else 1.0), "float doubled", n.lineno)
            elif isinstance(v, str) and v:
                add(a, b, repr(v + "_"), "string", n.lineno)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(n, "value", None), ast.Yield):
            a, b = at(n)
            add(a, b, "pass", "drop statement", n.lineno)
            if isinstance(n, ast.AugAssign):
                t = at(n.target)[1]
                v = at(n.value)[0]
                sym = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
                if sym:
                    add(t, v, f" {sym} ", "augmented", n.lineno)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = at(n.test)
            add(a, b, "True", "condition true", n.lineno)
            add(a, b, "False", "condition false", n.lineno)
        elif isinstance(n, ast.BoolOp):
            for x, y in zip(n.values[:-1], n.values[1:]):
                l, r = at(x)[1], at(y)[0]
                g = raw[l:r].decode()
                add(l, r, g.replace(" and ", " or ") if " and " in g else g.replace(" or ", " and "), "and/or", n.lineno)
        elif isinstance(n, ast.Call):
            a, b = at(n)
            if isinstance(n.func, ast.Attribute):
                nm = n.func.attr
                fa, fb = at(n.func)
                base = raw[at(n.func.value)[0]:at(n.func.value)[1]].decode()
                swap = {"copy": None, "sin": "cos", "cos": "sin", "array": "asarray", "all": "any", "any": "all", "min": "max", "max": "min", "zeros_like": "ones_like", "ones_like": "zeros_like", "zeros": "ones", "ones": "zeros",
                        "abs": "sign", "exp": "expm1", "sqrt": "abs", "log": "log1p", "real": "imag", "sinh": "cosh", "cosh": "sinh", "tanh": "sin", "hstack": "vstack"}
                if nm == "copy" and not n.args:
                    add(a, b, base, "drop copy", n.lineno)
                elif nm in swap and swap[nm]:
                    add(fa, fb, f"{base}.{swap[nm]}", f"{nm} to {swap[nm]}", n.lineno)
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
                xa, xb = at(n.args[0])
                add(a, b, "(" + raw[xa:xb].decode() + ")", "drop call", n.lineno)
            if len(n.args) >= 2:
                (xa, xb), (ya, yb) = at(n.args[0]), at(n.args[1])
                add(xa, yb, raw[ya:yb].decode() + raw[xb:ya].decode() + raw[xa:xb].decode(), "swap arguments", n.lineno)
            for k in n.keywords:
                if k.arg and k.arg not in ("dtype",):
                    ka, kb = at(k)
                    text = raw[:ka].decode().rstrip()
                    if text.endswith(","):
                        add(len(text.encode()) - 1, kb, "", f"drop keyword {k.arg}", n.lineno)
        elif isinstance(n, ast.Name) and n.id == "self" and False:
            pass
    # names exchanged: another local name of the same length class
    good = []
    for m in out:
        new = raw[:m["a"]] + m["text"].encode() + raw[m["b"]:]
        if new == raw:
            continue
        try:
            t2 = ast.parse(new)
        except SyntaxError:
            continue
        if ast.dump(t2) != ast.dump(tree):
            good.append(m)
    return good


def run(m, log):
    path = f"{REPO}/{m['file']}"
    raw = open(path, "rb").read()
    t0 = time.time()
    try:
        open(path, "wb").write(raw[:m["a"]] + m["text"].encode() + raw[m["b"]:])
        first = (os.environ.get("MUTATE_FIRST", "") + " " + ORDER[m["file"]]).split()
        first = list(dict.fromkeys(first))
        verdict, tried = None, []
        for p in first + ([q for q in ALL if q not in first] if os.environ.get("MUTATE_ALL") else []):
            tried.append(p)
            try:
                r = subprocess.run(["bash", "run.sh", p], cwd="/verif", capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                verdict = f"{p} timeout"
                break
            if r.returncode:
                verdict = p if f"VIOLATION property={p}" in r.stdout else f"{p} rc {r.returncode}"
                break
    finally:
        open(path, "wb").write(raw)
    m = dict(m, verdict=verdict or "SURVIVED", seconds=round(time.time() - t0))
    with open(log, "a") as f:
        f.write(json.dumps(m) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "list":
        rng = random.Random(int(sys.argv[2]))
        pool = {f: mutants(f) for f in ORDER}
        print({f: len(v) for f, v in pool.items()}, sum(map(len, pool.values())))
        n = int(sys.argv[3])
        flat = [m for v in pool.values() for m in v]
        if len(sys.argv) > 5:
            flat = [m for m in flat if re.search(sys.argv[5], m["what"])]
            print(len(flat))
            n = len(flat)
        if n < len(flat):
            # at least a dozen of every file, the rest at random
            pick = []
            for v in pool.values():
                pick += rng.sample(v, min(12, len(v)))
            rest = [m for m in flat if m not in pick]
            pick += rng.sample(rest, max(0, n - len(pick)))
        else:
            pick = flat
        rng.shuffle(pick)
        json.dump(pick, open(sys.argv[4], "w"))
    else:
        todo = json.load(open(sys.argv[2]))
        for m in todo[int(sys.argv[3])::int(sys.argv[4])]:
            run(m, sys.argv[5])
