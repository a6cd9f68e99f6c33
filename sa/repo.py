"""Loading of the analysed package: modules, classes, method resolution."""
import ast
import os

PKG = "pyDeltaRCM"


class Mod:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.ns = {}


class FuncV:
    def __init__(self, node, mod, cls=None, jit=False, closure=None, kind="func"):
        self.node = node
        self.mod = mod
        self.cls = cls
        self.jit = jit
        self.closure = closure
        self.kind = kind          # func / static / class
        self.name = getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return "%s.%s%s" % (self.mod.name, (self.cls.name + ".") if self.cls else "", self.name)

    def __repr__(self):
        return "<func %s>" % self.qual


class PropV:
    def __init__(self, getter):
        self.getter = getter
        self.setter = None
        self.deleter = None


class ClassV:
    def __init__(self, name, mod, node, jit=False):
        self.name = name
        self.mod = mod
        self.node = node
        self.jit = jit
        self.bases = []
        self.ns = {}
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                if isinstance(b, ClassV):
                    seqs.append(list(b.mro()))
                else:
                    seqs.append([b])
            seqs.append(list(self.bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def find(self, name, after=None):
        started = after is None
        for c in self.mro():
            if not started:
                if c is after:
                    started = True
                continue
            if isinstance(c, ClassV) and name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return "<class %s>" % self.name


class ExtV:
    """something outside the package, known by its dotted name"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ModV:
    def __init__(self, mod):
        self.mod = mod


JIT_NAMES = ("njit", "jit", "jitclass", "vectorize", "guvectorize", "generated_jit")


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    while isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return ""


class Repo:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        pdir = os.path.join(root, PKG)
        for fn in sorted(os.listdir(pdir)):
            if not fn.endswith(".py"):
                continue
            path = os.path.join(pdir, fn)
            with open(path, encoding="utf-8") as f:
                src = f.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
            self.mods[fn[:-3]] = Mod(fn[:-3], os.path.join(PKG, fn), tree, src)
        from . import canon
        self.renamed = canon.normalise(self.mods)
        for m in list(self.mods.values()):
            self._scan(m)
        self._link()
        self.array_attrs, self.mask_attrs = self._array_attrs()
        self.functions = sum(1 for m in self.mods.values() for n in ast.walk(m.tree)
                             if isinstance(n, (ast.FunctionDef, ast.Lambda)))

    def changing(self):
        """attributes some function outside the construction of a model writes, or that have a setter"""
        if not hasattr(self, "_changing"):
            out = set()
            for m in self.mods.values():
                for k in ast.walk(m.tree):
                    if not isinstance(k, ast.ClassDef):
                        continue
                    for f in k.body:
                        if not isinstance(f, ast.FunctionDef) or f.name in ("__init__", "create_domain", "set_constants", "create_other_variables"):
                            continue
                        for n in ast.walk(f):
                            t = n
                            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                                t = n.value
                                while isinstance(t, ast.Attribute) and t.attr == "flat":
                                    t = t.value
                            elif not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)):
                                continue
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                out.add(t.attr)
            self._changing = out
        return self._changing

    def _imports(self, body, m):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    top = a.name.split(".")[0]
                    if top == PKG:
                        m.ns[a.asname or top] = ("pkgimport", a.name)
                    elif a.asname:
                        m.ns[a.asname] = ExtV(a.name)
                    else:
                        m.ns[top] = ExtV(top)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                local = n.level > 0 or base.split(".")[0] == PKG
                if base.split(".")[0] == PKG:
                    base = ".".join(base.split(".")[1:])
                for a in n.names:
                    nm = a.asname or a.name
                    if local:
                        m.ns[nm] = ("from", base, a.name)
                    else:
                        m.ns[nm] = ExtV(base + "." + a.name)
            elif isinstance(n, (ast.If, ast.Try)):
                self._imports(n.body, m)
                for h in getattr(n, "handlers", []):
                    self._imports(h.body, m)
                self._imports(getattr(n, "orelse", []), m)

    def _scan(self, m):
        self._imports(m.tree.body, m)

        def block(body):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    jit = any(deco_name(d) in JIT_NAMES for d in n.decorator_list)
                    m.ns[n.name] = FuncV(n, m, None, jit)
                elif isinstance(n, ast.ClassDef):
                    jit = any(deco_name(d) in JIT_NAMES for d in n.decorator_list)
                    c = ClassV(n.name, m, n, jit)
                    m.ns[n.name] = c
                    self._class(c)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    if n.targets[0].id != "__all__":
                        m.ns[n.targets[0].id] = ("expr", n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    m.ns[n.target.id] = ("expr", n.value)
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    if isinstance(n, ast.If) and "__main__" in ast.dump(n.test):
                        continue
                    block(n.body)
        block(m.tree.body)

    def _class(self, c):
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef):
                kind = "func"
                prop = None
                for d in n.decorator_list:
                    dn = deco_name(d)
                    if dn in ("staticmethod",):
                        kind = "static"
                    elif dn in ("classmethod",):
                        kind = "class"
                    elif dn in ("property", "cached_property"):
                        prop = "get"
                    elif dn == "setter":
                        prop = ("set", d.value.id if isinstance(d.value, ast.Name) else n.name)
                    elif dn == "deleter":
                        prop = "del"
                f = FuncV(n, c.mod, c, c.jit or any(deco_name(d) in JIT_NAMES for d in n.decorator_list),
                          kind=kind)
                if prop == "get":
                    c.ns[n.name] = PropV(f)
                elif isinstance(prop, tuple):
                    base = c.ns.get(prop[1])
                    p = PropV(base.getter if isinstance(base, PropV) else None)
                    p.setter = f
                    c.ns[n.name] = p
                elif prop == "del":
                    pass
                else:
                    c.ns[n.name] = f
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                # name = property(fget, fset)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "property":
                    a = list(v.args)
                    kw = {k.arg: k.value for k in v.keywords}
                    g = a[0] if a else kw.get("fget")
                    s = a[1] if len(a) > 1 else kw.get("fset")
                    p = PropV(c.ns.get(g.id) if isinstance(g, ast.Name) else None)
                    if isinstance(s, ast.Name):
                        p.setter = c.ns.get(s.id)
                    c.ns[n.targets[0].id] = p
                elif isinstance(v, ast.Name) and v.id in c.ns:
                    c.ns[n.targets[0].id] = c.ns[v.id]
                else:
                    c.ns[n.targets[0].id] = ("expr", v)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                c.ns[n.target.id] = ("expr", n.value)

    def resolve(self, m, name, depth=0):
        v = m.ns.get(name)
        if depth > 8:
            return None
        if isinstance(v, tuple) and v[0] == "from":
            base, nm = v[1], v[2]
            if base == "":
                if nm in self.mods:
                    return ModV(self.mods[nm])
                if "__init__" in self.mods:
                    return self.resolve(self.mods["__init__"], nm, depth + 1)
                return None
            mm = self.mods.get(base.split(".")[-1])
            if mm is None:
                return ExtV(PKG + "." + base + "." + nm)
            return self.resolve(mm, nm, depth + 1)
        if isinstance(v, tuple) and v[0] == "pkgimport":
            last = v[1].split(".")[-1]
            if last in self.mods:
                return ModV(self.mods[last])
            return None
        return v

    def _link(self):
        for m in self.mods.values():
            for v in list(m.ns.values()):
                if isinstance(v, ClassV):
                    for b in v.node.bases:
                        r = None
                        if isinstance(b, ast.Name):
                            r = self.resolve(m, b.id)
                            if r is None:
                                r = ExtV(b.id)
                        elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                            q = self.resolve(m, b.value.id)
                            if isinstance(q, ModV):
                                r = self.resolve(q.mod, b.attr)
                            elif isinstance(q, ExtV):
                                r = ExtV(q.name + "." + b.attr)
                        v.bases.append(r if r is not None else ExtV(ast.unparse(b)))

    ARRAY_MAKERS = {"zeros", "ones", "zeros_like", "ones_like", "array", "copy", "pad", "full",
                    "full_like", "reshape", "hstack", "flatten", "custom_pad", "empty",
                    "empty_like", "meshgrid", "arange", "astype", "ravel", "asarray"}

    # attributes that hold arrays whatever the way they are assigned
    ARRAYS = set("""Hnew Vp_dep_mud Vp_dep_sand X Y active_layer cell_type cf depth distances distances_flat eta eta0
        free_surf_flag free_surf_walk_inds inlet ivec ivec_flat iwalk iwalk_flat jvec jvec_flat jwalk jwalk_flat kernel1
        kernel2 mod_erosion mod_sed_weight mod_water_weight pad_cell_type pad_depth pad_mod_sed_weight pad_stage qs qw qwn
        qx qxn qy qyn ravel_walk_flat sand_frac sfc_sum sfc_visit sigma stage start_indices subsidence_mask uw ux uy
        water_weights x xc y yc""".split())

    def _array_attrs(self):
        out, mask = set(), set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                tgts = []
                if isinstance(n, ast.Assign):
                    tgts = n.targets
                elif isinstance(n, ast.AugAssign):
                    tgts = [n.target]
                for t in tgts:
                    for x in ([t] + (list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [])):
                        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) \
                                and not self._strkey(x.slice):
                            if x.value.attr in ("flat",) and isinstance(x.value.value, ast.Attribute):
                                out.add(x.value.value.attr)
                            else:
                                out.add(x.value.attr)
                        if isinstance(x, ast.Attribute) and isinstance(n, ast.Assign):
                            v = n.value
                            for w in ast.walk(v):
                                if isinstance(w, ast.Call):
                                    f = w.func
                                    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                                    if nm in self.ARRAY_MAKERS:
                                        out.add(x.attr)
                                        if any(k.arg == "dtype" and isinstance(k.value, ast.Name) and k.value.id == "bool"
                                               for k in w.keywords):
                                            mask.add(x.attr)
                                    break
                # numba spec: ('name', float32[:, :])
                if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.elts[0], ast.Constant) \
                        and isinstance(n.elts[0].value, str) and isinstance(n.elts[1], ast.Subscript):
                    out.add(n.elts[0].value)
        out -= {"_save_fig_list", "_save_var_list", "shape", "variables", "config_dict", "flat"}
        return out | self.ARRAYS, mask | {"subsidence_mask"}

    @staticmethod
    def _strkey(s):
        return isinstance(s, ast.Constant) and isinstance(s.value, str)

    def cls(self, name):
        for m in self.mods.values():
            v = m.ns.get(name)
            if isinstance(v, ClassV):
                return v
        return None

    def func(self, mod, name):
        m = self.mods.get(mod)
        return self.resolve(m, name) if m else None
