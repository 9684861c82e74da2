"""The verification tasks, and the properties their obligations belong to."""
from . import vlist, vset, vdict, vmisc, vlazy, vstr, lemmas

class Task:
    def __init__(self, name, fn, owners, cost=1.0): self.name, self.fn, self.owners, self.cost = name, fn, owners, cost
    def props(self): return set().union(*self.owners.values())
    def owns(self, tag): return self.owners.get(tag, self.owners["content"])

COST = {"__getitem__/1": 9, "drop": 4, "pop/0": 8, "pop/1": 9, "__delitem__": 6, "set": 3, "__setitem__": 5, "discard": 4}
def general(content, fam, c):
    """Owners of the tags that mean the same everywhere."""
    o = {"content": content, "wf": content, "class": {"C21"}, "fresh": {"C13"}, "frame": {"C13"} if c in fam.transient else {"C12"}}
    if c in fam.transient: o["orig"] = {"C14", "C13"}
    if c in fam.persistent: o["identity"] = {"C14"}; o["hash"] = {"C16"}
    if isinstance(fam, vdict.DictFamily):
        o["order"] = {"C10"}
        if c in fam.transient: o["version"] = {"C22"}
    if c in getattr(fam, "lazy", ()): o["force"] = {"C19"}
    return o

def build(pc):
    L, S, D = vlist.ListFamily(pc), vset.SetFamily(pc), vdict.DictFamily(pc)
    out = []
    def add(fam, c, name, fn, content):
        t = c in fam.transient
        m = name.split(".", 1)[1]
        o = general(content, fam, c)
        if m.startswith("persistent"): o["identity"] = {"C14"}; o["order"] = {"C10", "C14"}; o["hash"] = {"C16"}
        if m.startswith("transient"): o["fresh"] = {"C13"}
        out.append(Task(name, fn, o, COST.get(m, COST.get(m.split("/")[0], 1)) * (2 if t else 1)))
    return L, S, D, out, add

LAZY = ("getlazy", "is_lazy", "is_ready", "as_plist", "as_pdict", "as_tdict", "__holdlazy__", "ready_all")
def l1(pc):
    L, S, D, out, add = build(pc)
    for c in L.persistent + L.transient:
        lazy = c in L.lazy
        for name, fn in vlist.tasks(None, L, c):
            m = name.split(".", 1)[1].split("/")[0]
            if m in ("__len__", "__iter__", "__getitem__"): own = {"C02"} | ({"C20"} if lazy else set())
            elif m == "transient": own = {"C13", "C14"}
            elif m == "persistent": own = {"C14"}
            elif m in LAZY: own = {"C19", "C20"}
            else: own = {"C04"} if c in L.transient else {"C01"}
            add(L, c, name, fn, own)
    for c in S.persistent + S.transient:
        for name, fn in vset.tasks(None, S, c):
            m = name.split(".", 1)[1].split("/")[0]
            own = {"C13", "C14"} if m == "transient" else {"C14"} if m == "persistent" else {"C05"}
            add(S, c, name, fn, own)
    for c in D.persistent + D.transient:
        lazy = c in D.lazy
        for name, fn in vdict.tasks(None, D, c):
            m = name.split(".", 1)[1].split("/")[0]
            own = {"C09"} if c in D.transient else {"C08"}
            if m == "transient": own = {"C13", "C14"}
            elif m == "persistent": own = {"C14"}
            elif m == "__iter__": own = {"C10"}
            elif m in LAZY: own = {"C19", "C20"}
            elif lazy and m in ("__getitem__", "get", "pop"): own = own | {"C20"}
            add(D, c, name, fn, own)
    return out

SET_L2 = {"C05": ("remove", "pop"), "C07": ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "isdisjoint", "issubset", "issuperset"), "C13": ("copy",)}
def l2_sets(pc):
    L, S, D, out, add = build(pc)
    own_of = {m: {p} for p, ms in SET_L2.items() for m in ms}
    for c in (S.pset, S.tset):
        for name, fn in vset.l2_tasks(S, c):
            m = name.split(".", 1)[1].split("/")[0]
            add(S, c, name, fn, own_of.get(m, {"C06"}))
            if m == "copy": out[-1].owners.update(content={"C13", "C24"}, identity={"C14", "C24"})
            out[-1].cost = 0.3
        for name, fn in vset.new_tasks(S, c): add(S, c, name, fn, {"C05", "C14", "C13"}); out[-1].cost = 0.5
    for name, fn in vset.function_tasks(S):
        out.append(Task(name, fn, {"content": {"C07"}, "frame": {"C12", "C13"}}, 0.3))
    return out

LIST_L2 = {"C02": ("index", "count", "__contains__", "__reversed__"), "C03": ("sort", "reverse", "extend", "remove", "__add__", "__radd__", "__iadd__", "__mul__", "__rmul__", "__imul__"),
           "C15": ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__")}
def l2_lists(pc):
    L, S, D, out, add = build(pc)
    own_of = {m: {p} for p, ms in LIST_L2.items() for m in ms}
    for c in L.persistent + L.transient:
        for name, fn in vlist.l2_tasks(L, c):
            m = name.split(".", 1)[1].split("/")[0]
            own = set(own_of.get(m, {"C04"} if c in L.transient else {"C01"}))
            if c in L.transient and m in ("remove", "extend"): own.add("C04")
            if c in L.lazy and m in ("pop", "__contains__", "__eq__"): own.add("C20")
            add(L, c, name, fn, own)
            if m == "copy": out[-1].owners.update(content={"C13", "C24"}, identity={"C14", "C24"})
            out[-1].cost = 0.3
        for name, fn in vlist.new_tasks(L, c):
            add(L, c, name, fn, {"C03", "C14", "C13"} | ({"C19", "C20"} if c in L.lazy else set())); out[-1].cost = 0.5
    for name, fn in vlist.function_tasks(L):
        out.append(Task(name, fn, {"content": {"C15"}, "frame": {"C12", "C13"}}, 0.3))
    return out

DICT_L2 = {"C11": ("update", "setall", "dropall", "deleteall", "__eq__", "__ne__"), "C10": ("__reversed__",)}
def l2_dicts(pc):
    L, S, D, out, add = build(pc)
    own_of = {m: {p} for p, ms in DICT_L2.items() for m in ms}
    for c in D.persistent + D.transient:
        for name, fn in vdict.l2_tasks(D, c):
            m = name.split(".", 1)[1].split("/")[0]
            own = set(own_of.get(m, {"C09"} if c in D.transient else {"C08"}))
            if c in D.transient and m == "update": own.add("C09")
            if c in D.lazy and m in ("popitem", "setdefault", "__eq__"): own.add("C20")
            add(D, c, name, fn, own)
            if m == "copy": out[-1].owners.update(content={"C13", "C24"}, identity={"C14", "C24"})
            out[-1].cost = 0.3
        for name, fn in vdict.view_tasks(D, c):
            add(D, c, name, fn, {"C10"} | ({"C20"} if c in D.lazy and "keys" not in name else set())); out[-1].cost = 0.3
        for name, fn in vdict.guard_tasks(D, c) if c in D.transient else ():
            add(D, c, name, fn, {"C22"}); out[-1].cost = 0.3
        for name, fn in vdict.new_tasks(D, c):
            add(D, c, name, fn, {"C11", "C14", "C13"} | ({"C19", "C20"} if c in D.lazy else set())); out[-1].cost = 0.5
    return out

def misc(pc):
    L, S, D, out, add = build(pc)
    for F in (L, S, D):
        for c in F.persistent:
            for name, fn in vmisc.immutable_tasks(F, c): add(F, c, name, fn, {"C12"})
        for c in F.persistent + F.transient:
            for name, fn in vmisc.reduce_tasks(F, c): add(F, c, name, fn, {"C24"})
            for name, fn in vstr.tasks(F, c, pc.util.seqstr): add(F, c, name, fn, {"C23"} | ({"C19"} if c in getattr(F, "lazy", ()) else set()))
        for c in F.persistent + F.transient:
            for name, fn in vmisc.holdlazy_tasks(F, c, pc.holdlazy): add(F, c, name, fn, {"C20"} | ({"C19"} if c in getattr(F, "lazy", ()) else set()))
        for name, fn in vmisc.hash_tasks(F): add(F, F.persistent[0], name, fn, {"C16"})
    for name, fn in vstr.function_tasks(pc, D): out.append(Task(name, fn, {"content": {"C23"}}, 1))
    return out
def lazies(pc):
    own = {"content": {"C17"}, "once": {"C17"}, "fail": {"C18"}, "lock": {"C17", "C18"}}
    return [Task(name, fn, own if "LazyError" not in name else {**own, "content": {"C18"}}, 0.3) for name, fn in vlazy.tasks(pc)]
def all_tasks(pc):
    every = {f"C{i:02d}" for i in range(1, 25)}
    return [Task(name, fn, {"content": every}, 0.1) for name, fn in lemmas.tasks()] + lazies(pc) + misc(pc) + l1(pc) + l2_sets(pc) + l2_lists(pc) + l2_dicts(pc)
