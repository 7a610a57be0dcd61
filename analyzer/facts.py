"""Loading the facts (type-checked program) dumped by the rustc driver."""
import json, re


def strip_lt(s):
    s = re.sub(r"'(?:\w+|\{[^}]*\})\s*,\s*", "", s)
    s = re.sub(r"<'\w+>", "", s)
    s = re.sub(r"&'\w+ ", "&", s)
    s = re.sub(r"'\w+", "", s)
    return s


class Facts:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.raw = d
        self.bodies = d["bodies"]
        self.tys = d["tys"]
        self.items = d["items"]
        self.adts = {a["path"]: a for a in d["adts"]}
        self.auto = {a["path"]: a for a in d["auto"]}
        self.unsafe_blocks = d["unsafe_blocks"]
        self.truncated = d["truncated"]
        self.fns = [i for i in self.items if i["kind"] in ("Fn", "AssocFn")]
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f["path"], f)
        self.impls = [i for i in self.items if i["kind"] == "Impl"]
        self.statics = [i for i in self.items if i["kind"] == "Static"]
        self._ts = {}
        # callee interning
        self.callees = []
        self._callee_ix = {}

    def callee_ix(self, fn):
        k = id(fn)
        i = self._callee_ix.get(k)
        if i is None:
            key = json.dumps(fn, sort_keys=True)
            i = self._callee_ix.get(key)
            if i is None:
                i = len(self.callees)
                self.callees.append(fn)
                self._callee_ix[key] = i
            self._callee_ix[k] = i
        return i

    def ty(self, i):
        return self.tys[i]

    def tstr(self, i):
        s = self._ts.get(i)
        if s is None:
            s = strip_lt(self.tys[i]["s"])
            self._ts[i] = s
        return s

    def peel(self, i):
        """Type with references, Box and Arc/Rc removed."""
        while True:
            t = self.tys[i]
            if t["k"] in ("ref", "ptr"):
                i = t["e"]
            elif t["k"] == "adt" and t["def"] in ("std::boxed::Box", "alloc::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
                i = t["args"][0]
            else:
                return i

    def adt_of(self, i):
        t = self.tys[i]
        return self.adts.get(t["def"]) if t["k"] == "adt" else None

    def find_ty(self, s):
        for i, t in enumerate(self.tys):
            if self.tstr(i) == s:
                return i
        return None
