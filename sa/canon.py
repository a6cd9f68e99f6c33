"""Name resolution for private names.

The rules speak about private names of the package (backing attributes of properties, helper functions).  Where a private name has
been changed consistently, the syntax trees are alpha-renamed back to the names of names.json before anything is analysed, so that the
rules judge the code and not its spelling.  A backing attribute is identified by its public property; a helper function by its place
(module and class), its number of parameters and the vocabulary of its body.  Nothing is renamed where the match is not unique.
"""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "names.json")


def _bare(body):
    return body[1:] if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else body


def functions(mods):
    """(module, class) -> {name: node} of the functions and methods that are not properties"""
    out = {}
    for m in mods.values():
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                out.setdefault((m.name, ""), {})[n.name] = n
            elif isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef) and not f.decorator_list:
                        out.setdefault((m.name, n.name), {})[f.name] = f
                    elif isinstance(f, ast.FunctionDef) and not any("property" in ast.dump(d) or "setter" in ast.dump(d) for d in f.decorator_list):
                        out.setdefault((m.name, n.name), {})[f.name] = f
    return out


def vocabulary(fn):
    v = set()
    for b in _bare(fn.body):
        for n in ast.walk(b):
            if isinstance(n, ast.Name):
                v.add(n.id)
            elif isinstance(n, ast.Attribute):
                v.add("." + n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                v.add(repr(n.value))
    return v


def backing(mods):
    """property -> attribute, for properties whose getter just returns one attribute"""
    out = {}
    for m in mods.values():
        for k in m.tree.body:
            if not isinstance(k, ast.ClassDef):
                continue
            for f in k.body:
                if isinstance(f, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == "property" for d in f.decorator_list):
                    b = _bare(f.body)
                    if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and \
                            isinstance(b[0].value.value, ast.Name) and b[0].value.value.id == "self":
                        out.setdefault("%s.%s" % (k.name, f.name), b[0].value.attr)
    return out


def uses(mods):
    """all identifiers that occur as names, attributes, arguments or definitions"""
    out = set()
    for m in mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
    return out


def attributes(mods):
    """attribute assigned through self -> where it is used: [module|class|function|stored or read]"""
    out, stored = {}, set()
    for m in mods.values():
        for k in m.tree.body:
            if not isinstance(k, ast.ClassDef):
                continue
            for f in k.body:
                if not isinstance(f, ast.FunctionDef):
                    continue
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        w = isinstance(n.ctx, ast.Store)
                        out.setdefault(n.attr, set()).add("%s|%s|%s|%s" % (m.name, k.name, f.name, "w" if w else "r"))
                        if w:
                            stored.add(n.attr)
    return {a: sorted(v) for a, v in out.items() if a in stored}


class Rename(ast.NodeTransformer):
    def __init__(self, attrs, names):
        self.attrs, self.names = attrs, names

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = self.attrs.get(n.attr, n.attr)
        return n

    def visit_Name(self, n):
        n.id = self.names.get(n.id, n.id)
        return n

    def visit_alias(self, n):
        n.name = self.names.get(n.name, n.name)
        return n

    def visit_FunctionDef(self, n):
        n.name = self.attrs.get(n.name, n.name) if n.name not in self.names else self.names[n.name]
        self.generic_visit(n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr", "hasattr", "delattr") and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            n.args[1].value = self.attrs.get(n.args[1].value, n.args[1].value)
        return n


def record(mods):
    fs = {}
    for (m, k), d in functions(mods).items():
        for n, f in d.items():
            fs["%s|%s|%s" % (m, k, n)] = [len(f.args.args) + len(f.args.kwonlyargs), sorted(vocabulary(f))]
    with open(FILE, "w") as f:
        json.dump({"backing": backing(mods), "functions": fs, "attributes": attributes(mods), "used": sorted(uses(mods))}, f, indent=0, sort_keys=True)
        f.write("\n")


def normalise(mods):
    """alpha-rename back to the recorded private names; returns what was renamed"""
    try:
        with open(FILE) as f:
            rec = json.load(f)
    except (OSError, ValueError):
        return {}
    used = uses(mods)
    attrs, names = {}, {}
    now = backing(mods)
    for p, a in rec["backing"].items():
        b = now.get(p)
        if a.startswith("_") and b is not None and b != a and a not in used and attrs.get(b, a) == a and b not in rec["backing"].values():
            attrs[b] = a
    # attributes without a property: the same places store and read it
    mine = attributes(mods)
    gone = {a: set(v) for a, v in rec.get("attributes", {}).items() if a not in used and a not in attrs.values()}
    new = {b: set(v) for b, v in mine.items() if b not in rec.get("used", ()) and b not in attrs}
    text = {n.value for m in mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    gone = {a: v for a, v in gone.items() if a not in text}       # reached by name somewhere: not ours to rename
    score = sorted(((len(v & w) / len(v | w), a, b) for a, v in gone.items() for b, w in new.items()), reverse=True)
    for s, a, b in score:
        if s < 0.6 or any(o != (s, a, b) and s - o[0] < 0.1 and (o[1] == a or o[2] == b) for o in score):
            continue
        if b not in attrs and a not in attrs.values():
            attrs[b] = a
    have = functions(mods)
    want = {}
    for q, (n, v) in rec["functions"].items():
        m, k, name = q.split("|")
        want.setdefault((m, k), {})[name] = (n, set(v))
    known = {n for d in want.values() for n in d}
    for where, d in want.items():
        miss = {n: x for n, x in d.items() if n not in have.get(where, {}) and n not in used}
        extra = {n: f for n, f in have.get(where, {}).items() if n not in known}
        if not miss or not extra:
            continue
        pairs = []
        for n, (k, v) in miss.items():
            for g, f in extra.items():
                if len(f.args.args) + len(f.args.kwonlyargs) == k:
                    w = {attrs.get(x[1:], x[1:]) if x.startswith(".") else x for x in vocabulary(f)}
                    v2 = {x[1:] if x.startswith(".") else x for x in v}
                    pairs.append((len(v2 & w) / max(1, len(v2 | w)), n, g))
        pairs.sort(reverse=True)
        for s, n, g in pairs:
            if s < 0.5 or any(o != (s, n, g) and s - o[0] < 0.1 and (o[1] == n or o[2] == g) for o in pairs):
                continue
            tgt = names if where[1] == "" else attrs
            if g in tgt or n in tgt.values():
                continue
            tgt[g] = n
    if attrs or names:
        # module functions are also reached as attributes of the imported module
        al = dict(attrs)
        al.update({k: v for k, v in names.items() if k not in al})
        for m in mods.values():
            Rename(al, names).visit(m.tree)
    return dict(attrs, **names)


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.dirname(HERE))
    from sa.repo import Repo
    record(Repo(sys.argv[1] if len(sys.argv) > 1 else "/repo").mods)
