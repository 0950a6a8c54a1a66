"""Cython source -> Python syntax tree plus the C types of its variables

Only declarations are rewritten: 'cimport' lines go, 'cdef T x = e' becomes 'x = e' (the type is recorded and every store
to x is coerced and checked against it), 'cdef/cpdef T f(T a, ...)' becomes 'def f(a, ...)', '<T>x' becomes a call of a
coercion.  Everything else is parsed by Python's own parser.  A construct that does not survive this is a SyntaxError and
the module counts as unreadable (nothing is proved about it)."""
import ast
import re

CT = r"(?:unsigned\s+)?(?:long\s+long|double|float|int|long|size_t|ssize_t|Py_ssize_t|bool_cpp|bint|object|void|char)(?:\s*\[[^\]]*\])?"
UNSIGNED = ("size_t", "unsigned int", "unsigned long")
INTS = UNSIGNED + ("int", "long", "ssize_t", "Py_ssize_t", "long long")


def norm(t):
    return re.sub(r"\s+", " ", t.strip())


def parse(text):
    lines = text.split("\n")
    out, types, pend = [], {}, None
    cur, curdent = None, -1
    i = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        body = strip_comment(ln)
        st = body.strip()
        ind = len(body) - len(body.lstrip())
        if st and cur is not None and ind <= curdent and not st.startswith(")"):
            cur = None
        if re.match(r"(from\s+\S+\s+)?cimport\b", st):
            out.append(ln[:ind] + "pass")
            continue
        if re.match(r"@(cython\.)?(boundscheck|wraparound|cdivision|initializedcheck|nonecheck|profile|linetrace)\s*\(", st):
            out.append("")
            continue
        m = re.match(r"(cpdef|cdef|def)\b(.*)$", st)
        if m and "(" in st and (m.group(1) == "def" or re.match(rf"(cpdef|cdef)\s+(inline\s+)?({CT}\s+)?\w+\s*\(", st)):
            n0 = i
            while st.count("(") > st.count(")"):
                st += " " + strip_comment(lines[i]).strip()
                i += 1
            g = re.match(rf"(?:cpdef|cdef|def)\s+(?:inline\s+)?(?:({CT})\s+)?(\w+)\s*\((.*)\)\s*((?:noexcept|nogil|except\s*\??\s*-?\w*|->\s*\w+|\s)*):\s*(.*)$", st)
            if not g:
                raise SyntaxError("function header: " + st)
            ret, name, args, _, rest = g.groups()
            argt, plain = {}, []
            for a in split_args(args):
                h = re.match(rf"({CT})\s+(\w+)\s*(=.*)?$", a)
                if h:
                    argt[h.group(2)] = norm(h.group(1))
                    plain.append(h.group(2) + (h.group(3) or ""))
                else:
                    plain.append(a)
            types[name] = dict(args=argt, vars={}, ret=norm(ret) if ret else None)
            cur, curdent = name, ind
            out.append(" " * ind + f"def {name}({', '.join(plain)}): {rest}")
            out += [""] * (i - n0)
            continue
        m = re.match(rf"cdef\s+({CT})\s+(.*)$", st)
        if m:
            t = norm(m.group(1))
            asg = []
            for d in split_args(m.group(2)):
                h = re.match(r"(\w+)\s*(=\s*(.*))?$", d)
                if not h:
                    raise SyntaxError("declaration: " + st)
                if cur is not None:
                    types[cur]["vars"][h.group(1)] = t
                if h.group(3):
                    asg.append(f"{h.group(1)} = {casts(h.group(3))}")
            out.append(" " * ind + ("; ".join(asg) if asg else "pass"))
            continue
        out.append(casts(body) if "<" in body else body)
    tree = ast.parse("\n".join(out))
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name in types:
            Typer(types[f.name], types).visit(f)
    ast.fix_missing_locations(tree)
    return tree, types


def casts(s):
    return re.sub(rf"<\s*({CT})\s*>\s*(\w+(?:\[[^\]]*\])?|\([^()]*\))", lambda m: f"__ccast__({norm(m.group(1))!r}, {m.group(2)})", s)


def strip_comment(s):
    q = None
    for j, c in enumerate(s):
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == "#":
            return s[:j].rstrip()
    return s.rstrip()


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Typer(ast.NodeTransformer):
    """marks the operations whose C meaning differs from Python's"""

    def __init__(self, t, fns):
        self.t, self.fns = {**t["args"], **t["vars"]}, fns

    def ty(self, e):
        if isinstance(e, ast.Name):
            return self.t.get(e.id)
        if isinstance(e, ast.Constant):
            return "lit" if isinstance(e.value, int) and not isinstance(e.value, bool) else "double" if isinstance(e.value, float) else None
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
                return "ssize_t"
            b = self.ty(e.value)
            return b.split("[")[0].strip() if b and "[" in b else None
        if isinstance(e, ast.UnaryOp):
            return self.ty(e.operand)
        if isinstance(e, ast.BinOp):
            a, b = self.ty(e.left), self.ty(e.right)
            if a is None or b is None:
                return None
            if "double" in (a, b):
                return "double"
            for u in UNSIGNED:
                if u in (a, b):
                    return u
            if a == "lit":
                return b
            return a
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "__ccast__":
                return e.args[0].value
            if isinstance(e.func, ast.Name) and e.func.id in self.fns:
                return self.fns[e.func.id]["ret"]
        return None

    def visit_BinOp(self, e):
        t = self.ty(e)
        ta, tb = self.ty(e.left), self.ty(e.right)
        self.generic_visit(e)
        if t in UNSIGNED and isinstance(e.op, ast.Sub):
            return ast.copy_location(ast.Call(ast.Name("__unsigned__", ast.Load()), [e], []), e)
        if isinstance(e.op, ast.Div) and ta in INTS + ("lit",) and tb in INTS + ("lit",) and not (ta == tb == "lit"):
            return ast.copy_location(ast.Call(ast.Name("__cintdiv__", ast.Load()), [e.left, e.right], []), e)
        return e

    def visit_UnaryOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.USub) and self.ty(e.operand) in UNSIGNED:
            return ast.copy_location(ast.Call(ast.Name("__unsigned__", ast.Load()), [e], []), e)
        return e

    def visit_Compare(self, e):
        ts = [self.ty(x) for x in [e.left] + e.comparators]
        self.generic_visit(e)
        if any(t in UNSIGNED for t in ts) and any(t in INTS and t not in UNSIGNED for t in ts) \
                and any(not isinstance(o, (ast.Eq, ast.NotEq)) for o in e.ops):
            xs = [e.left] + e.comparators
            for i, t in enumerate(ts):
                if t in INTS and t not in UNSIGNED:
                    xs[i] = ast.copy_location(ast.Call(ast.Name("__unsigned__", ast.Load()), [xs[i]], []), e)
            e.left, e.comparators = xs[0], xs[1:]
        return e


def attach(e, m, types):
    """give the functions of module m their C types and coercions"""
    from .values import Func, Bi
    from . import num
    from fractions import Fraction
    from .values import Unsupported

    for n, t in types.items():
        f = m.ns.get(n)
        if isinstance(f, Func):
            f.ctypes_ = t

    def uns(e, a, k):
        v = e.scalar(a[0])
        if e.truth(num.cmp("<", v, 0)):
            e.throw("OverflowError", "unsigned arithmetic wraps around")
        return v

    def cast(e, a, k):
        return coerce(e, a[0], a[1])

    def idiv(e, a, k):
        raise Unsupported("C integer division")
    m.ns["__unsigned__"] = Bi("__unsigned__", uns)
    m.ns["__ccast__"] = Bi("__ccast__", cast)
    m.ns["__cintdiv__"] = Bi("__cintdiv__", idiv)
    m.ns["fabs"] = Bi("fabs", lambda e, a, k: num.absv(e.need(a[0])))


def coerce(e, t, v):
    from . import num
    from .values import Unsupported, is_num, is_z3, Ref
    import z3
    if "[" in t:
        if v is None or is_num(v):
            e.throw("TypeError", "a buffer is required")
        if not e.is_arr(v):
            raise Unsupported("memoryview of " + type(v).__name__)
        nd = t.count(":") - t.count("::1")  # '::1' counts twice
        if len(e.arr(v).shape) != (t.count(",") + 1):
            e.throw("ValueError", "Buffer has wrong number of dimensions")
        return v
    if t in ("object",):
        return v
    v = e.scalar(v)
    if isinstance(v, bool) or z3.is_bool(v):
        return v if t in ("bool_cpp", "bint") else num.ite(v, 1, 0) if is_z3(v) else int(v)
    if not is_num(v):
        e.throw("TypeError", "must be a number")
    if t in ("double", "float"):
        if num.is_inf(v):
            return v
        return num.real(v) if is_z3(v) else v
    if t in ("bool_cpp", "bint"):
        return e.truth_c(v)
    if t in INTS:
        if num.is_inf(v) or not (isinstance(v, int) or is_z3(v) and v.is_int()):
            e.throw("TypeError", "an integer is required")
        if t in UNSIGNED and e.truth(num.cmp("<", v, 0)):
            e.throw("OverflowError", "negative value converted to " + t)
        return v
    raise Unsupported("C type " + t)
