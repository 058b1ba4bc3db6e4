"""One witness search per property, on the real code, with oracles of their own.

case(rng, size) makes a JSON-able input; check(case, H) runs the code from the
scratch copy and returns None, or what went wrong.
"""
import builtins
import contextlib
import io
import itertools
import json
import os
import shutil
import time
from pathlib import Path

from replay.gen import Gen, RESERVED, pattern_handles


# ------------------------------------------------------------------ helpers
def canon(v):
    """JSON text that tells 1, 1.0, True, '1' apart and ignores dict order."""
    if isinstance(v, dict):
        return "{" + ",".join(f"{k!r}:{canon(v[k])}" for k in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    return f"{type(v).__name__}:{v!r}"


def empty(v):
    return v or None


class H:
    """Scratch database and the imported code under test."""

    def __init__(self, root):
        self.root = Path(root)
        self.n = 0
        self.out = ""

    def db(self, db="{}", idx=None, wn="0"):
        self.n += 1
        d = self.root / f"db{self.n}"
        d.mkdir()
        if idx is None:
            idx = json.dumps({"node_relationships": {}, "node_labels": [], "relationship_names": []})
        (d / "database_x.json").write_text(db)
        (d / "indexes_x.json").write_text(idx)
        (d / "wiggle_number_x.txt").write_text(wn)
        from models.wigish import GDBMSFilePath

        return Files(d, GDBMSFilePath(
            database_file_path=d / "database_x.json",
            indexes_file_path=d / "indexes_x.json",
            wiggle_number_file_path=d / "wiggle_number_x.txt",
        ))

    def folder(self):
        self.n += 1
        d = self.root / f"dir{self.n}"
        d.mkdir()
        return d

    def call(self, f, *a, **k):
        """-> (value, None) or (None, exception); stdout captured."""
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                return f(*a, **k), None
        except Exception as e:
            return None, e
        finally:
            self.out = buf.getvalue()

    def query(self, text, files):
        from wiggle_shell.core.query.query import query

        return self.call(query, text, files.paths)


class Files:
    def __init__(self, d, paths):
        self.d, self.paths = d, paths

    def snap(self):
        return {p.name: p.read_bytes() for p in sorted(self.d.iterdir())}

    def load(self):
        return json.loads(self.paths.database_file_path.read_text())

    def indexes(self):
        return json.loads(self.paths.indexes_file_path.read_text())

    def counter(self):
        return int(self.paths.wiggle_number_file_path.read_text())

    def done(self):
        shutil.rmtree(self.d, ignore_errors=True)


def tree(d):
    out = {}
    for p in sorted(Path(d).rglob("*")):
        out[str(p.relative_to(d))] = p.read_bytes() if p.is_file() else None
    return out


def fmt_json(r, v):
    k = r.choice([0, 1, 2, 3, 4])
    if k == 0:
        return json.dumps(v)
    if k == 1:
        return json.dumps(v, indent=4)
    if k == 2:
        return json.dumps(v, indent=12)
    if k == 3:
        return json.dumps(v, separators=(",", ":"))
    return "  " + json.dumps(v, indent=1) + "\n" * 400


def record(n, label, props=None, rels=None):
    return {"node_metadata": {"wn": n, "created_at": 1.5, "updated_at": None}, "node_label": label,
            "properties": props, "relations": rels}


def rel_record(n, name, a, b, props=None):
    return {"relationship_metadata": {"wn": n, "created_at": 1.5, "updated_at": None},
            "relationship_name": name, "wn_from_node": a, "wn_to_node": b, "properties": props}


def start_state(r):
    """A consistent database before the query: text of its three files."""
    if r.random() < 0.4:
        return {"db": "{}", "idx": None, "wn": "0"}
    base = r.choice([0, 1, 7, 9, 98, 999, 10 ** 9, 2 ** 53, 10 ** 20])
    n = base
    db, nr, labels, names = {}, {}, [], []
    for _ in range(r.choice([0, 1, 2, 5])):
        lab = r.choice(["Old", "NodeLabel", "n", "Bar"])
        rels = None
        if r.random() < 0.4:
            rels = [rel_record(n + 1, "OLDREL", n, n + 2, {"k": [1, None]})]
            nr[str(n)] = [n + 1]
            names = ["OLDREL"]
        db[str(n)] = record(n, lab, r.choice([None, {}, {"a": 1, "b": [True, "x", None]}]), rels)
        if lab not in labels:
            labels.append(lab)
        n += r.choice([1, 3, 3]) if not rels else 3
    idx = {"node_relationships": nr, "node_labels": labels, "relationship_names": names}
    return {"db": fmt_json(r, db), "idx": fmt_json(r, idx), "wn": str(n)}


def unique_labels(q, prefix="L"):
    """Give every node of the query its own label (so that records can be told apart)."""
    k = 0
    txt = q["txt"]
    return q


class UGen(Gen):
    """Labels are unique over the whole case."""

    dup = False
    count = 0

    def pattern(self, nnodes=None, props=0.5):
        r = self.r
        p = None
        import replay.gen as g

        outer = self

        class R:
            def __getattr__(self, n):
                return getattr(r, n)

            def choice(self, xs):
                if xs is g.WORDS and self.label:
                    pass
                return r.choice(xs)

        save = g.WORDS
        p = Gen.pattern(self, nnodes, props)
        for nd in p["nodes"]:
            UGen.count += 1
            new = f"{nd['label']}_{UGen.count}"
            old = nd["txt"]
            i = old.index(":")
            j = old.index(nd["label"], i)
            nd_new = old[:j] + new + old[j + len(nd["label"]):]
            nd["label_old"], nd["label"], nd["txt_old"], nd["txt"] = nd["label"], new, old, nd_new
        # rebuild the text
        seq = [p["nodes"][0]["txt"]]
        for rel, nd in zip(p["rels"], p["nodes"][1:]):
            seq += [rel["txt"], nd["txt"]]
        txt = seq[0]
        for s in seq[1:]:
            txt += self.ws() + s
        p["txt"] = txt
        return p


def make_seq(r, size, G=UGen):
    g = G(r, size)
    n = r.choice([1, 1, 2, 3])
    return {"start": start_state(r), "queries": [g.query(nmake=r.choice([1, 1, 2, 3]), find=(r.random() < 0.15))
                                                 for _ in range(n)]}


def written(q):
    return [p for m in q["makes"] for p in m["patterns"]]


def run_seq(case, H, each):
    f = H.db(**case["start"])
    try:
        for q in case["queries"]:
            before = dict(db=f.load(), idx=f.indexes(), wn=f.counter(), t=time.time())
            _, e = H.query(q["txt"], f)
            if e is not None:
                return f"well-formed query raised {type(e).__name__}: {str(e)[:200]}"
            try:
                after = dict(db=f.load(), idx=f.indexes(), wn=f.counter(), t=time.time())
            except ValueError as x:
                return f"a file of the database is no longer valid: {x}"
            m = each(q, before, after)
            if m:
                return m
    finally:
        f.done()


# ------------------------------------------------------------------ C01
class C01:
    rule = "1-3 queries of 1-3 MAKE statements with 1-3+ patterns of 1-3 nodes each on an empty or filled database"

    @staticmethod
    def case(r, size):
        return make_seq(r, size, r.choice([UGen, Gen]))

    @staticmethod
    def check(case, H):
        def each(q, b, a):
            new = {k: v for k, v in a["db"].items() if k not in b["db"]}
            want = sorted((nd["label"], canon(empty(nd["props"] and nd["props"]["v"])))
                          for p in written(q) for nd in p["nodes"])
            got = sorted((v["node_label"], canon(empty(v["properties"]))) for v in new.values())
            if want != got:
                return f"nodes written {want} but stored {got}"
            for k, v in new.items():
                if str(v["node_metadata"]["wn"]) != k:
                    return f"record {k} says it is {v['node_metadata']['wn']}"
                for md in [v["node_metadata"]] + [x["relationship_metadata"] for x in v["relations"] or []]:
                    c = md["created_at"]
                    if not (b["t"] - 1e-3 <= c <= a["t"] + 1e-3):
                        return f"creation time {c} is not within the MAKE [{b['t']}, {a['t']}]"
        return run_seq(case, H, each)


class C02:
    rule = C01.rule + "; every node label unique, both arrow directions, shafts of 1-9 dashes, whitespace around arrows"

    case = staticmethod(lambda r, size: make_seq(r, size))

    @staticmethod
    def check(case, H):
        def each(q, b, a):
            new = {v["node_label"]: v for k, v in a["db"].items() if k not in b["db"]}
            num = {lab: v["node_metadata"]["wn"] for lab, v in new.items()}
            want, got = [], []
            for p in written(q):
                for k, rel in enumerate(p["rels"]):
                    x, y = p["nodes"][k]["label"], p["nodes"][k + 1]["label"]
                    if rel["dir"] == "l":
                        x, y = y, x
                    if x not in num or y not in num:
                        return f"node {x} or {y} was not stored"
                    want.append((x, rel["name"] or "", num[x], num[y], canon(empty(rel["props"] and rel["props"]["v"]))))
            for lab, v in new.items():
                for x in v["relations"] or []:
                    got.append((lab, x["relationship_name"] or "", x["wn_from_node"], x["wn_to_node"],
                                canon(empty(x["properties"]))))
            if sorted(want) != sorted(got):
                return f"relationships written {sorted(want)} but stored {sorted(got)}"
        return run_seq(case, H, each)


class C03:
    rule = C01.rule
    case = staticmethod(lambda r, size: make_seq(r, size))

    @staticmethod
    def check(case, H):
        def each(q, b, a):
            nums = []
            for k, v in a["db"].items():
                mine = [v["node_metadata"]["wn"]] + [x["relationship_metadata"]["wn"] for x in v["relations"] or []]
                nums += mine
                if k not in b["db"] and min(mine) < b["wn"]:
                    return f"number {min(mine)} is below the counter {b['wn']}"
            if len(nums) != len(set(nums)):
                return f"a number was handed out twice: {sorted(nums)}"
            if nums and max(nums) >= a["wn"]:
                return f"counter {a['wn']} is not above {max(nums)}"
        return run_seq(case, H, each)


# ------------------------------------------------------------------ C04
class C04:
    rule = "database texts in five formats x 0-5 records added under free or taken numbers, storable or not"

    @staticmethod
    def case(r, size):
        keys = [str(r.choice([0, 1, 2, 9, 10, 100, 12345])) for _ in range(r.choice([0, 1, 3, 6]))]
        vals = [record(1, "A", {"a": "é\u2028"}), {}, {"x": [1, [2]]}, {"long": "x" * 300}, {"n": None, "f": 1.5}]
        db = {k: r.choice(vals) for k in keys}
        items = {}
        for _ in range(r.choice([0, 1, 2, 5])):
            k = str(r.choice([3, 4, 5, 6, 7, 8] + ([int(x) for x in keys] if r.random() < 0.15 else [])))
            items[k] = r.choice(vals)
        return {"db": fmt_json(r, db), "items": items, "bad": r.choice([None, None, None, "set", "object", "first", "key"])}

    @staticmethod
    def check(case, H):
        from wiggle_query_language.graph.database.database import add_item_to_database, load_database

        f = H.db(db=case["db"])
        try:
            before, raw = json.loads(case["db"]), f.snap()
            items = json.loads(json.dumps(case["items"]))
            bad = case["bad"]
            if bad == "set":
                items["77"] = {"x": {1, 2}}
            elif bad == "object":
                items["77"] = object()
            elif bad == "first":
                items = {"77": {"deep": [{"x": complex(1, 2)}]}, **items}
            elif bad == "key":
                items["77"] = {("a", "b"): 1}
            refused = bad or any(k in before for k in items)
            _, e = H.call(add_item_to_database, f.paths.database_file_path, items)
            if refused:
                if e is None:
                    return f"taken number or unstorable value was not refused: {sorted(items)} into {sorted(before)}"
                if f.snap() != raw:
                    return "refused but the file changed"
                return None
            if e is not None:
                return f"refused {sorted(items)} into {sorted(before)}: {type(e).__name__} {e}"
            want = {**before, **items}
            try:
                got = f.load()
            except ValueError as x:
                return f"file is no longer valid: {x}"
            if canon(got) != canon(want):
                return f"holds {sorted(got)} instead of {sorted(want)} or other values"
            v, e = H.call(load_database, f.paths.database_file_path)
            if e is not None or canon(v) != canon(want):
                return f"load_database gives {v!r:.200} {e}"
            now = f.snap()
            if {k: v for k, v in now.items() if not k.startswith("database")} != \
                    {k: v for k, v in raw.items() if not k.startswith("database")}:
                return "another file changed"
        finally:
            f.done()


# ------------------------------------------------------------------ malformed texts
def bad_prop_maps(r):
    g = Gen(r)
    good = lambda: g.names(1)[0] + "z" + g.ws() + ":" + g.ws() + g.value()["txt"]
    k = r.choice(["missing", "word", "word", "qword", "nested_list", "nested_map", "junk_number", "neg", "exp", "unclosed",
                  "two_strings", "nocomma_list", "open_list", "dots", "nulls", "listword", "emptyval_mid", "listnested2"])
    kind = k
    name = "bad" + r.choice(["", "1", "_x"])
    if k == "missing":
        v = r.choice(["", " ", "\n"])
    elif k == "word":
        v = r.choice(["True", "False", "None", "Null", "none", "NULL", "TRUE", "nUll", "FALSE"])
    elif k == "qword":
        q = r.choice("'\"")
        v = q + r.choice(["True", "False", "None", "Null", "none", "true", "false"]) + q
    elif k == "nested_list":
        v = r.choice(["[[1]]", "[1, [2, 3]]", "[[]]", "[ ['a'], 1]"])
    elif k == "listnested2":
        v = r.choice(["[1, {a: 1}]", "[{}]", "[[1], [2]]"])
    elif k == "nested_map":
        v = r.choice(["{a: 1}", "{}", "{ b : 'x' }"])
    elif k == "junk_number":
        v = r.choice(["1a", "1.5x", "1.2.3", "3.", ".5", "1 2", "1.5 6"])
        if v in (".5", "3."):
            v = "1.2.3"
    elif k == "neg":
        v = r.choice(["-1", "- 2", "-3.5"])
    elif k == "exp":
        v = r.choice(["1e5", "1.5e3", "0x10", "1_0"])
    elif k == "unclosed":
        v = r.choice(["'abc", "\"abc", "'abc\"", "\"abc'", "''a"])
    elif k == "two_strings":
        v = r.choice(["'a' 'b'", "'a'b", "\"a\" \"b\"", "'a''b'", "true false", "null null", "true'a'", "1 'a'"])
    elif k == "nocomma_list":
        v = r.choice(["[1 2]", "['a' 'b']", "[1, 2 3]", "[true false]", "[1,, 2]", "[,1]"])
    elif k == "open_list":
        v = r.choice(["[1, 2", "1]", "[1]]", "[[1]"])
    elif k == "dots":
        v = r.choice(["..", "1..2"])
        if v == "..":
            v = "1..2"
    elif k == "nulls":
        v = r.choice(["nulla", "null1", "truefoo", "falsey", "true1"])
    elif k == "listword":
        v = r.choice(["[True]", "[1, None]", "[False, 'a']", "[Null]", "[none]", "[foo]", "[1, bar]", "[NULL]"])
    elif k == "emptyval_mid":
        v = r.choice([" ", ""])
    pairs = [good() for _ in range(r.choice([0, 1, 2]))]
    pairs.insert(r.randrange(len(pairs) + 1), f"{name}:{g.ws()}{v}")
    return kind, "{" + g.ws() + (g.ws() + "," + g.ws()).join(pairs) + g.ws() + "}"


def bad_stmt(r, size, kw="MAKE", kinds=None):
    """A malformed statement with valid parts around the fault -> (kind, text)"""
    g = Gen(r, size)
    s = g.stmt(kw=kw, npat=1 if kw == "FIND" else None)
    k = r.choice(kinds or ["undirected", "both", "lower", "illegal", "bracket", "square", "curly", "comma", "colon", "junk", "label",
                           "second_bad_rel", "text_between", "fourth", "trailing", "nopat_comma"])
    pats = [p["txt"] for p in s["patterns"]]
    i = r.randrange(len(pats))

    def rel(txt):
        n1, n2 = g.pattern(1)["txt"], g.pattern(1)["txt"]
        pre = ""
        if r.random() < 0.4:
            pre = g.pattern(1)["txt"] + g.ws() + r.choice(["-[:OK]->", "<-[ok2:OK]-", "-[]->"]) + g.ws()
        post = ""
        if not pre and r.random() < 0.4:
            post = g.ws() + r.choice(["-[:OK]->", "<-[ok2:OK]-", "--[]-->"]) + g.ws() + g.pattern(1)["txt"]
        import re
        n1 = re.sub(r"^\((\s*)\w*", r"(\1", n1)
        n2 = re.sub(r"^\((\s*)\w*", r"(\1", n2)
        pre = re.sub(r"^\((\s*)\w*", r"(\1", pre)
        post = re.sub(r"\((\s*)\w+(\s*):", r"(\1\2:", post)
        return pre + n1 + g.ws() + txt + g.ws() + n2 + post

    sh = lambda: "-" * r.choice([1, 1, 2, 4])
    pr = lambda: r.choice(["", "", "{a: 1}", "{a: 'x y', b: [1, true]}"])
    if k == "undirected":
        pats[i] = rel(f"{sh()}[{r.choice(['', 'r:REL', ':REL', 'q'])}{pr()}]{sh()}")
    elif k == "both":
        pats[i] = rel(f"<{sh()}[{r.choice(['', 'r:REL', ':REL', 'q'])}{pr()}]{sh()}>")
    elif k == "lower":
        nm = r.choice(["rel", "Rel", "rEL", "RELx", "KNOWs", "é"])
        a = r.choice([("<", ""), ("", ">")])
        pats[i] = rel(f"{a[0]}{sh()}[{r.choice(['', 'h'])}:{nm}{pr()}]{sh()}{a[1]}")
    elif k == "second_bad_rel":
        a = r.choice(["<-[:OK]-", "-[:OK]->"])
        b = r.choice(["-[:NO]-", "<-[:NO]->", "-[:no]->"])
        pats[i] = f"(:A){a}(:B){b}(:C)"
    elif k == "illegal":
        c = r.choice("#%&*$")
        t = pats[i]
        j = r.randrange(1, len(t))
        pats[i] = t[:j] + c + t[j:]
    elif k == "bracket":
        t = pats[i]
        js = [j for j, c in enumerate(t) if c in "()"]
        j = r.choice(js)
        pats[i] = t[:j] + r.choice(["", t[j] * 2]) + t[j + 1:]
    elif k == "square":
        nodes = ["(:A)", "(b:B)"]
        pats[i] = r.choice(["(:A)-[:R->(:B)", "(:A)-:R]->(:B)", "(:A {x: [1, 2})", "(:A {x: 1, 2]})", "(:A)-[[:R]->(:B)"])
    elif k == "curly":
        pats[i] = r.choice(["(:A {x: 1)", "(:A x: 1})", "(:A {x: 1)-[r:R {y: 2}]->(b:B)", "(:A x: 1})-[:R {y: 2}]->(:B {z: 3})",
                            "(:A {x: 1})<-[:R {{y: 2}]-(:B)", "(:A {x: 1})-[:R]->(:B {x: 1})-[:S]->(:C {x: 1)", "(:A {x: 1}})<-[:R {y: 2}]-(:B)"])
    elif k == "comma":
        pats[i] = r.choice(["(:A {a: 1 b: 2})", "(:A)-[:R {a: 'x' b: 2, c: 3}]->(:B)", "(n:A {a: [1] b: 2})",
                            "(:A {a: 1, b: true c: 'x'})"])
    elif k == "colon":
        pats[i] = r.choice(["(:A {a 1})", "(:A {a: 1, b 2})", "(:A)-[:R {a 'x', b: 2}]->(:B)", "(n:A {a: 1, b})"])
    elif k == "junk":
        pats[i] = r.choice(["(A)", "(:)", "()", "(a b:C)", "(:A B)", "(:A)->(:B)", "(:A)--(:B)", "(:A)-->(:B)",
                            "(:A)-[:R]->", "-[:R]->(:B)", "(:A)-[R S]->(:B)", "(:A)(:B)", "(:A)-[:R]->-[:S]->(:B)",
                            "(:A)<-(:B)", "[:A]", "(:A){a: 1}", "(:A)-(:R)->(:B)", "(:A)-[:R:S]->(:B)", "(:A:B)"])
    elif k == "label":
        pats[i] = r.choice(["(n)", "(n {a: 1})", "(n:)", "(: {a: 1})"])
    elif k == "text_between":
        pats[i] = r.choice(["foo (:A)", "(:A) foo", "(:A) foo, (:B)", "(:A)-[:R]-> x (:B)", "(:A) x -[:R]->(:B)", "(:A) - (:B)"])
    elif k == "fourth":
        pats[i] = "(:A)-[:R]->(:B)-[:S]->(:C)-[:T]->(:D)"
    elif k == "trailing":
        pats[-1] = pats[-1] + r.choice([" foo", " 1", " RETURN (x:Y)", ", foo", " (:A"])
    elif k == "nopat_comma":
        pats[i] = r.choice(["foo", "(:A), bar", "1"])
    txt = g.kw(kw) + " " + ", ".join(pats) + g.ws() + ";"
    if not txt.rstrip(" \n\t;").endswith(")"):
        txt = g.kw(kw) + " " + ", ".join(pats + ["(:Zz)"]) + ";"
    return k, txt


# junk kinds that the documented notation does not clearly exclude are not generated:
# "(:A)(:B)" adjacency without a comma reads as two patterns
NOT_CLAIMED = {"(:A)(:B)", "(:A)-[R S]->(:B)", "(a b:C)", "(:A {a: 1, 2]})", "(:A)-[:R]->-[:S]->(:B)"}


def with_good(r, size, bad, kw="MAKE"):
    g = Gen(r, size)
    stmts = [g.stmt()["txt"] for _ in range(r.choice([0, 0, 1, 2, 3]))]
    pos = r.randrange(len(stmts) + 1)
    stmts.insert(pos, bad)
    return r.choice(["\n", " ", "\n\n"]).join(stmts)


class C05:
    rule = "queries with exactly one fault (statement, property, FIND, REPORT, unstorable value) among valid statements"

    @staticmethod
    def case(r, size):
        g = Gen(r, size)
        k = r.choice(["stmt", "stmt", "prop", "prop", "find", "find2", "report", "report2", "report_only", "huge", "dup",
                      "findprop", "findlabel", "findrel"])
        if k == "stmt":
            kind, bad = bad_stmt(r, size)
            txt = with_good(r, size, bad)
        elif k == "prop":
            kind, m = bad_prop_maps(r)
            where = r.choice(["(:A {m})", "(:B)-[:R {m}]->(:C)", "(:A)-[:R]->(:B)<-[:S]-(c:C {m})", "(:A)<-[:S {m}]-(:B)"])
            txt = with_good(r, size, "MAKE " + where.replace("{m}", m) + ";")
        elif k == "huge":
            txt = with_good(r, size, "MAKE (:A {a: %s});" % ("9" * r.choice([4301, 5000])))
        elif k == "dup":
            txt = with_good(r, size, r.choice(["MAKE (a:A)-[a:R]->(:B);", "MAKE (a:A)-[:R]->(a:B);",
                                               "MAKE (:A)-[r:R]->(:B)-[r:S]->(:C);", "MAKE (:A)<-[:R]-(z:B)<-[:S]-(z:C);"]))
        else:
            makes = [g.stmt()["txt"] for _ in range(r.choice([1, 1, 2, 3]))]
            if k == "find":
                extra = [bad_stmt(r, size, "FIND", ["undirected", "both", "lower", "second_bad_rel", "label"])[1]]
            elif k == "find2":
                extra = [g.find()["txt"], g.find()["txt"]]
            elif k == "findprop":
                extra = ["FIND (:A %s);" % bad_prop_maps(r)[1]]
            elif k == "findrel":
                extra = ["FIND (:A)-[:R %s]->(:B);" % bad_prop_maps(r)[1]]
            elif k == "findlabel":
                extra = [r.choice(["FIND (n);", "FIND (n {a: 1});"])]
            elif k == "report":
                f = g.find()
                extra = [f["txt"], g.report(pattern_handles(f["pattern"]), bad="zzz_not_there")["txt"]]
            elif k == "report2":
                f = g.find()
                hs = pattern_handles(f["pattern"])
                extra = [f["txt"], "REPORT %s;" % (hs[0] if hs else "zz9"), "REPORT %s;" % (hs[-1] if hs else "zz9")]
            else:
                extra = ["REPORT foo;"]
            for e in extra:
                makes.insert(r.randrange(len(makes) + 1), e)
            txt = "\n".join(makes)
        return {"start": start_state(r), "kind": k, "txt": txt}

    @staticmethod
    def check(case, H):
        f = H.db(**case["start"])
        try:
            before = f.snap()
            _, e = H.query(case["txt"], f)
            after = f.snap()
            if e is None:
                return None if before == after else C05.accepted(case)
            if before != after:
                return f"rejected with {type(e).__name__} but {[k for k in after if after[k] != before.get(k)]} changed"
        finally:
            f.done()

    @staticmethod
    def accepted(case):
        # what has to be rejected at all is the matter of C11, C12 and C14; a fault that is
        # rejected only by raising later is the matter of C05
        return None


class C06:
    rule = C01.rule
    case = staticmethod(lambda r, size: make_seq(r, size, Gen))

    @staticmethod
    def check(case, H):
        def each(q, b, a):
            labels = {nd["label"] for p in written(q) for nd in p["nodes"]}
            names = {x["name"] for p in written(q) for x in p["rels"] if x["name"]}
            bi, ai = b["idx"], a["idx"]
            if set(ai["node_labels"]) != set(bi["node_labels"]) | labels or len(set(ai["node_labels"])) != len(ai["node_labels"]):
                return f"label index {ai['node_labels']} is not {bi['node_labels']} and {sorted(labels)}"
            if set(ai["relationship_names"]) != set(bi["relationship_names"]) | names:
                return f"name index {ai['relationship_names']} is not {bi['relationship_names']} and {sorted(names)}"
            want = {k: sorted(v) for k, v in bi["node_relationships"].items()}
            total = 0
            for k, v in a["db"].items():
                if k not in b["db"] and v["relations"]:
                    want[k] = sorted(x["relationship_metadata"]["wn"] for x in v["relations"])
                    total += len(want[k])
            got = {k: sorted(v) for k, v in ai["node_relationships"].items()}
            if got != want:
                return f"relationship index {got} is not {want}"
            if total != sum(len(p["rels"]) for p in written(q)):
                return f"{total} relationships indexed, {sum(len(p['rels']) for p in written(q))} written"
            if set(ai) != set(bi):
                return f"indexes {sorted(ai)}"
        return run_seq(case, H, each)


INDEX = {"node_labels": ("node_labels_index", "node_labels_index"),
         "relationship_names": ("relationship_names_index", "relationship_names_index"),
         "node_relationships": ("node_relationships_index", "node_relationships_index")}


def index_fns(name):
    import importlib

    m = importlib.import_module(f"wiggle_query_language.graph.database.indexes.{name}_index")
    return (getattr(m, f"add_items_to_{name}_index"), getattr(m, f"load_{name}_index"), getattr(m, f"wipe_{name}_index"))


def rand_indexes(r):
    lab = ["A", "B", "Old", "x" * 200, "é", "node_labels", "MAKE"]
    idx = {"node_relationships": {str(k): r.sample(range(50), r.randrange(0, 4))
                                  for k in r.sample(range(20), r.randrange(0, 6))},
           "node_labels": r.sample(lab, r.randrange(0, 6)), "relationship_names": r.sample(lab, r.randrange(0, 6))}
    if r.random() < 0.3:
        idx["other_index"] = {"kept": [1, 2]}
    return idx


class C07:
    rule = "indexes files in five formats, 1-4 additions (also of nothing, and of what is there) and loads"

    @staticmethod
    def case(r, size):
        ops = []
        for _ in range(r.choice([1, 1, 2, 4])):
            n = r.choice(list(INDEX))
            if n == "node_relationships":
                it = {str(r.randrange(25)): r.sample(range(50, 90), r.randrange(0, 4)) for _ in range(r.choice([0, 1, 2, 3]))}
            else:
                it = r.sample(["A", "B", "C", "D", "new", "é"], r.choice([0, 1, 2, 4]))
            ops.append([n, it])
        return {"idx": fmt_json(r, rand_indexes(r)), "ops": ops}

    @staticmethod
    def check(case, H):
        f = H.db(idx=case["idx"])
        try:
            want = norm_idx(json.loads(case["idx"]))
            rest = {k: v for k, v in f.snap().items() if not k.startswith("indexes")}
            for name, it in case["ops"]:
                add, load, _ = index_fns(name)
                if name == "node_relationships":
                    arg = {k: set(v) for k, v in it.items()}
                    for k, v in it.items():
                        want[name][k] = want[name].get(k, set()) | set(v)
                else:
                    arg = set(it)
                    want[name] = want[name] | set(it)
                _, e = H.call(add, f.paths.indexes_file_path, arg)
                if e is not None:
                    return f"adding {it} to {name} raised {type(e).__name__}: {e}"
                try:
                    got = norm_idx(f.indexes())
                except ValueError as x:
                    return f"after adding {it} to {name} the file is not valid: {x}"
                if got != want:
                    return f"after adding {it} to {name}: {got} instead of {want}"
                for n in INDEX:
                    v, e = H.call(index_fns(n)[1], f.paths.indexes_file_path)
                    if e is not None:
                        return f"loading {n} raised {e!r}"
                    v = {k: set(x) for k, x in v.items()} if n == "node_relationships" else v
                    if v != want[n]:
                        return f"loading {n} gives {v} instead of {want[n]}"
            if {k: v for k, v in f.snap().items() if not k.startswith("indexes")} != rest:
                return "another file changed"
        finally:
            f.done()


def norm_idx(d):
    out = {}
    for k, v in d.items():
        if k == "node_relationships":
            out[k] = {a: set(b) for a, b in v.items()}
        elif k in INDEX:
            out[k] = set(v)
        else:
            out[k] = v
    return out


class C08:
    rule = "FINDs of 1-3 nodes against indexes that hold all, some or none of the labels and names"

    @staticmethod
    def case(r, size):
        g = Gen(r, size)
        f = g.find(props=0.8)
        p = f["pattern"]
        labels = sorted({n["label"] for n in p["nodes"]})
        names = sorted({x["name"] for x in p["rels"] if x["name"]})
        pick = lambda xs: {"all": xs, "none": [], "some": r.sample(xs, r.randrange(len(xs) + 1))}[r.choice(["all", "all", "none", "some"])]
        il, iname = pick(labels), pick(names)
        more = r.choice([[], ["Other"], ["Other", "OTHER2", "x"]])
        more2 = r.choice([[], ["OTHER"], labels if r.random() < 0.5 else []])
        more2 = [m for m in more2 if m not in names]
        more = more + r.choice([[], [n for n in names if n not in labels]])
        idx = {"node_relationships": {}, "node_labels": il + more, "relationship_names": iname + more2}
        return {"txt": f["txt"], "labels": labels, "names": names, "idx": idx}

    @staticmethod
    def check(case, H):
        from wiggle_query_language.clauses.find.find import find
        from wiggle_query_language.clauses.find.parse_find.parse_find_statement import parse_find_statement_from_query_string

        f = H.db(idx=json.dumps(case["idx"]))
        try:
            parsed, e = H.call(parse_find_statement_from_query_string, case["txt"])
            if e is not None or parsed is None:
                return f"FIND was not parsed: {e}"
            before = f.snap()
            res, e = H.call(find, parsed_find=parsed, gdbms_file_path=f.paths)
            if e is not None:
                return f"find raised {e!r}"
            if f.snap() != before:
                return "find changed a file"
            lab = [x in case["idx"]["node_labels"] for x in case["labels"]]
            nam = [x in case["idx"]["relationship_names"] for x in case["names"]]
            cut = res is None
            if all(lab) and all(nam) and cut:
                return f"cut short though {case['labels']} and {case['names']} are all in {case['idx']}"
            if (not any(lab) or (nam and not any(nam))) and not cut:
                return f"not cut short: {case['labels']} {case['names']} in {case['idx']}"
        finally:
            f.done()


class C09:
    rule = "FINDs of 1-3 nodes with and without properties, handles and criteria for any of the handles"

    @staticmethod
    def case(r, size):
        g = Gen(r, size)
        f = g.find(props=0.5)
        hs = pattern_handles(f["pattern"])
        crit = None
        if r.random() < 0.7:
            crit = {}
            for h in hs + ["not_there"]:
                if r.random() < 0.6:
                    crit[h] = [r.choice([{}, {"c1": 1}, {"a": "over", "c2": None}]), r.choice([{}, {"n1": [1]}, {"a": True}])]
        return {"find": f, "crit": crit, "again": g.find(props=0.9)}

    @staticmethod
    def interp(H, f, crit):
        from models.wql import ParsedCriteria, ParsedCriteriaYesNo
        from wiggle_query_language.clauses.find.parse_find.parse_find_statement import parse_find_statement_from_query_string
        from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find

        parsed, e = H.call(parse_find_statement_from_query_string, f["txt"])
        if e is not None or parsed is None:
            return f"FIND was not parsed: {e}"
        pc = None
        if crit is not None:
            pc = ParsedCriteria(raw_statement="CRITERIA x", criteria_handle_props={
                h: ParsedCriteriaYesNo(props_dict_yes_match=y, props_dict_no_match=n) for h, (y, n) in crit.items()})
        pre, e = H.call(process_parsed_find, parsed_find=parsed, parsed_criteria=pc)
        if e is not None:
            return f"process_parsed_find raised {e!r}"
        p = f["pattern"]
        crit = crit or {}

        def props(x):
            y = dict((x["props"] or {}).get("v", {}))
            n = {}
            if x["handle"] and x["handle"] in crit:
                y.update(crit[x["handle"]][0])
                n.update(crit[x["handle"]][1])
            return canon(y), canon(n)

        got_nodes = [pre.left_node, pre.middle_node, pre.right_node]
        owner = {}
        for k, rel in enumerate(p["rels"]):
            owner.setdefault(k if rel["dir"] == "r" else k + 1, []).append(rel)
        for k in range(3):
            gn = got_nodes[k]
            if k >= len(p["nodes"]):
                if gn is not None:
                    return f"node {k} was not written but is there: {gn!r}"
                continue
            nd = p["nodes"][k]
            if gn is None:
                return f"node {k} is missing"
            if gn.node_label != nd["label"] or (gn.node_handle or "") != nd["handle"]:
                return f"node {k}: {gn!r} instead of {nd['handle']}:{nd['label']}"
            if (canon(gn.props_dict_yes or {}), canon(gn.props_dict_no or {})) != props(nd):
                return f"node {k}: properties {gn.props_dict_yes} / {gn.props_dict_no} instead of {props(nd)}"
            want = sorted((x["handle"], x["name"]) + props(x) for x in owner.get(k, []))
            got = sorted((x.rel_handle or "", x.rel_name or "", canon(x.props_dict_yes or {}), canon(x.props_dict_no or {}))
                         for x in gn.relationships)
            if got != want:
                return f"node {k}: relationships {got} instead of {want}"
        if set(pre.node_labels) != {n["label"] for n in p["nodes"]}:
            return f"labels {pre.node_labels}"
        if set(pre.relationship_names) != {x["name"] for x in p["rels"] if x["name"]}:
            return f"names {pre.relationship_names}"

    @staticmethod
    def check(case, H):
        return C09.interp(H, case["find"], case["crit"]) or C09.interp(H, case["again"], None)


class C10:
    rule = "property maps of 0-6 properties over all documented types and whitespace, alone and stored by a MAKE"

    @staticmethod
    def case(r, size):
        g = Gen(r, size)
        return {"props": [g.props(0) for _ in range(2)], "dir": r.choice("lr")}

    @staticmethod
    def check(case, H):
        from wiggle_query_language.clauses.parsing_helpers.parse_properties import get_property_dict

        for p in case["props"]:
            v, e = H.call(get_property_dict, p["txt"])
            if e is not None:
                return f"{p['txt']!r} raised {e!r}"
            if canon(v) != canon(p["v"]):
                return f"{p['txt']!r} was read as {v!r} instead of {p['v']!r}"
        a, b = case["props"]
        rel = f"-[:R {b['txt']}]->" if case["dir"] == "r" else f"<-[:R{b['txt']}]-"
        f = H.db()
        try:
            _, e = H.query(f"MAKE (x:A {a['txt']}) {rel} (:B{b['txt']});", f)
            if e is not None:
                return f"MAKE with {a['txt']!r}, {b['txt']!r} raised {e!r}"
            recs = {v["node_label"]: v for v in f.load().values()}
            rels = [x for v in recs.values() for x in v["relations"] or []]
            for got, want in ((recs["A"]["properties"], a["v"]), (recs["B"]["properties"], b["v"]), (rels[0]["properties"], b["v"])):
                if canon(got or {}) != canon(want):
                    return f"stored {got!r} instead of {want!r}"
        finally:
            f.done()


class C11:
    rule = "property maps with one unsupported value among valid ones, in any node or relationship of a MAKE or FIND"

    @staticmethod
    def case(r, size):
        kind, m = bad_prop_maps(r)
        where = r.choice(["(:A {m})", "(:A), (n:B {m})", "(:B)-[:R {m}]->(:C)", "(:B)-[:R]->(:C {m})",
                          "(:A)-[:R]->(:B)<-[:S]-(c:C {m})", "(:A)-[:R]->(:B)<-[s:S {m}]-(:C)"])
        kw = r.choice(["MAKE", "MAKE", "FIND"]) if "," not in where.replace("{m}", "") else "MAKE"
        return {"kind": kind, "map": m, "txt": f"{kw} " + where.replace("{m}", m) + ";"}

    @staticmethod
    def check(case, H):
        f = H.db(idx=json.dumps({"node_relationships": {}, "node_labels": ["A", "B", "C"], "relationship_names": ["R", "S"]}))
        try:
            before = f.snap()
            _, e = H.query(case["txt"], f)
            if e is None:
                return f"accepted {case['txt']!r} ({case['kind']}); stored {[v['properties'] for v in f.load().values()]}"
            if f.snap() != before:
                return f"rejected {case['txt']!r} but files changed"
        finally:
            f.done()


class C12:
    rule = "1-4 MAKE statements, one of them malformed in one of 15 ways (or none: then accepted)"

    @staticmethod
    def case(r, size):
        if r.random() < 0.25:
            g = Gen(r, size)
            return {"kind": None, "txt": g.query(nmake=r.choice([1, 2, 3]), find=False)["txt"]}
        while True:
            kind, bad = bad_stmt(r, size)
            if not any(x in bad for x in NOT_CLAIMED):
                break
        return {"kind": kind, "txt": with_good(r, size, bad)}

    @staticmethod
    def check(case, H):
        from wiggle_query_language.clauses.make.parse_make.parse_make_statement import parse_make_statement_from_query_string

        v, e = H.call(parse_make_statement_from_query_string, case["txt"])
        if case["kind"] is None:
            return None if e is None and v else f"well-formed query rejected: {e!r} {v!r:.50}"
        if e is None:
            f = H.db()
            try:
                _, e = H.query(case["txt"], f)
            finally:
                f.done()
            if e is None:
                return f"malformed ({case['kind']}) but accepted: {case['txt']!r}"


class C13:
    rule = "0-3 MAKE, 0-1 FIND, 0-1 REPORT in any order and layout; and single misspelt clauses"

    @staticmethod
    def case(r, size):
        if r.random() < 0.2:
            w = r.choice(["MAKE", "FIND"])
            perms = ["".join(p) for p in itertools.permutations(w)]
            miss = r.choice([p for p in perms if p != w])
            miss = r.choice([miss, miss.lower(), miss.capitalize()])
            return {"miss": miss + r.choice(["", " "]) + r.choice(["(:A);", "(a:A {x: 1})-[:R]->(:B);"])}
        g = Gen(r, size)
        q = g.query(find=r.random() < 0.6)
        if r.random() < 0.2 and not q["clauses"]:
            q = g.query(nmake=1)
        return {"q": {"txt": q["txt"], "clauses": q["clauses"]}}

    @staticmethod
    def check(case, H):
        from models.wql import Clause
        from wiggle_query_language.clauses.parsing_helpers.extract_statements import extract_all_statements

        if "miss" in case:
            f = H.db()
            try:
                _, e = H.query(case["miss"], f)
                return None if e is not None else f"misspelt clause accepted: {case['miss']!r}"
            finally:
                f.done()
        for name, cl in (("MAKE", Clause.MAKE), ("FIND", Clause.FIND), ("REPORT", Clause.REPORT)):
            want = [t for n, t in case["q"]["clauses"] if n == name]
            got, e = H.call(extract_all_statements, case["q"]["txt"], cl)
            if e is not None:
                return f"extracting {name} from {case['q']['txt']!r} raised {e!r}"
            if [x.strip() for x in got or []] != [x.strip() for x in want]:
                return f"{name} statements of {case['q']['txt']!r}: {got} instead of {want}"


class C14:
    rule = "queries with 0-2 FINDs and 0-2 REPORTs naming any of the FIND's handles or another"

    @staticmethod
    def case(r, size):
        g = Gen(r, size)
        k = r.choice(["ok", "ok", "bad", "bad", "find2", "report2", "nofind"])
        f = g.find(props=0.7)
        hs = pattern_handles(f["pattern"])
        makes = [g.stmt(props=0.7)["txt"] for _ in range(r.choice([0, 0, 1, 2]))]
        if k == "ok":
            parts = makes + [f["txt"], g.report(hs)["txt"]]
        elif k == "bad":
            bad = r.choice(["zz", "not_there"] + [f["pattern"]["nodes"][0]["label"] + "q"])
            if bad in hs:
                bad = "not_there"
            parts = makes + [f["txt"], g.report(hs, bad)["txt"]]
        elif k == "find2":
            parts = makes + [f["txt"]] + [g.find()["txt"] for _ in range(r.choice([1, 1, 2, 3]))]
        elif k == "report2":
            h = hs[0] if hs else None
            parts = makes + [f["txt"]] + [("REPORT %s;" % (h or "*"))] * r.choice([2, 2, 3, 4])
        else:
            parts = makes + ["REPORT foo;"]
        r.shuffle(parts)
        return {"kind": k, "txt": r.choice(["\n", " ", ""]).join(parts)}

    @staticmethod
    def check(case, H):
        f = H.db()
        try:
            _, e = H.query(case["txt"], f)
            if case["kind"] == "ok":
                return None if e is None else f"valid query {case['txt']!r} raised {e!r}"
            return None if e is not None else f"accepted ({case['kind']}): {case['txt']!r}"
        finally:
            f.done()


class C15:
    rule = "relationships, nodes and patterns with numbers and handles from small ranges, consistent or not"

    @staticmethod
    def case(r, size):
        k = r.choice(["rel", "node", "node", "pattern", "pattern"])
        nums = [0, 1, 2, 3, 10 ** 20]
        if k == "rel":
            return {"k": k, "a": r.choice(nums), "b": r.choice(nums), "wn": r.choice(nums)}
        if k == "node":
            rels = []
            for _ in range(r.choice([0, 1, 2, 3])):
                a, b = r.sample(nums, 2)
                rels.append([r.choice(nums), a, b])
            return {"k": k, "wn": r.choice(nums), "rels": rels, "none": r.random() < 0.3 and not rels}
        names = ["left_node", "left_middle_rel", "middle_node", "middle_right_rel", "right_node"]
        pool = ["a", "b", "c", "d", "A", "handle", "é", None, "", None, "e", "f"]
        return {"k": k, "h": {n: r.choice(pool) for n in names},
                "o": {n: [r.choice(["X", "a", "Y", None]), r.choice([None, "{a: 1}", "b"])] for n in names}}

    @staticmethod
    def check(case, H):
        from models.wql import Node, ParsedPattern, Relationship, WiggleGraphMetalData

        md = lambda n: WiggleGraphMetalData(wn=n)
        if case["k"] == "rel":
            v, e = H.call(Relationship, relationship_metadata=md(case["wn"]), relationship_name="R",
                          wn_from_node=case["a"], wn_to_node=case["b"], properties=None)
            ok = case["a"] != case["b"]
            if (e is None) != ok:
                return f"relationship {case} {'constructed' if e is None else 'refused'}: {e!r}"
            if ok and (v.wn_from_node, v.wn_to_node, v.wn) != (case["a"], case["b"], case["wn"]):
                return f"relationship {v!r}"
            return
        if case["k"] == "node":
            rels = [Relationship(relationship_metadata=md(n), relationship_name="R", wn_from_node=a, wn_to_node=b)
                    for n, a, b in case["rels"]]
            v, e = H.call(Node, node_metadata=md(case["wn"]), node_label="L", properties=None,
                          relations=None if case["none"] else rels)
            ok = all(case["wn"] in (a, b) for _, a, b in case["rels"])
            if (e is None) != ok:
                return f"node {case} {'constructed' if e is None else 'refused'}: {e!r}"
            if ok and [x.wn for x in v.relations or []] != [n for n, _, _ in case["rels"]]:
                return f"node {v!r} has other relations"
            return
        kw = {}
        for n, h in case["h"].items():
            kw[n] = "(x)"
            kw[n + "_handle"] = h
            kw[n + "_label"], kw[n + "_props"] = case["o"][n]
        v, e = H.call(ParsedPattern, **kw)
        hs = [h for h in case["h"].values() if h]
        ok = len(hs) == len(set(hs))
        if (e is None) != ok:
            return f"pattern with handles {hs} {'constructed' if e is None else 'refused'}: {e!r}"
        if ok:
            got, e = H.call(lambda: v.pattern_handles)
            if e is not None or set(got) != set(hs):
                return f"handles {got} instead of {hs} ({e!r})"


# ------------------------------------------------------------------ shell, DBMS folder
NAMES = ["foo", "a", "foo.bar", "x y", "*", "fo?", "[a]", "database_foo", "é", "foo.json", "tests", "~", "-rf", "..x", "a*b",
         "{b}", "wiggle", "A" * 60, "%s", "foo\nbar"]
BADNAMES = ["", ".", "..", "../evil", "a/b", "/abs_evil", "foo/", "foo/.", "./foo", "foo/../bar", "..\\evil", "a\\b"]


def build_dir(d, spec):
    for name in spec["dbs"]:
        (d / name).mkdir()
        (d / name / f"database_{name}.json").write_text('{"1": {"keep": "%s"}}' % len(name))
        (d / name / f"indexes_{name}.json").write_text('{"node_relationships": {"1": [2]}, "node_labels": ["K"], "relationship_names": []}')
        (d / name / f"wiggle_number_{name}.txt").write_text("17")
    for name in spec.get("empty", []):
        if not (d / name).exists():
            (d / name).mkdir()
    for name in spec.get("files", []):
        if not (d / name).exists():
            (d / name).write_text("a file")
    for name in spec.get("half", []):
        if not (d / name).exists():
            (d / name).mkdir()
            (d / name / f"database_{name}.json").write_text("{}")
    for name, what in spec.get("part", {}).items():
        if not (d / name).exists():
            (d / name).mkdir()
            what, _, text = what.partition(":") if ":" in what else (what, "", "stays")
            fn = {"idx": f"indexes_{name}.json", "wn": f"wiggle_number_{name}.txt", "db": f"database_{name}.json"}[what]
            (d / name / fn).write_text(text)


def dir_spec(r, n=None):
    dbs = r.sample(NAMES, n if n is not None else r.choice([0, 1, 2, 4]))
    return {"dbs": dbs, "files": r.sample(["note.txt", "README", "zz"], r.choice([0, 1])),
            "empty": r.sample(["tests", "__pycache__", "emptyone"], r.choice([0, 1, 2]))}


class C16:
    rule = "creations with valid, odd, taken and escaping names in DBMS folders with 0-4 databases (the folder may not exist yet)"

    @staticmethod
    def case(r, size):
        s = dir_spec(r)
        k = r.choice(["new", "new", "taken", "bad", "part", "prompt", "prompt"])
        name = r.choice(BADNAMES) if k == "bad" else r.choice([n for n in NAMES if n not in s["dbs"]])
        if k == "taken":
            s["dbs"] = s["dbs"] or ["foo"]
            name = r.choice(s["dbs"])
        if k == "part":
            s["part"] = {name: r.choice(["idx", "wn", "db"]) + r.choice(["", "", ":", ":{}", ":0", ":[]", ":null", ":17", ":{\"1\": {}}"])}
            s["empty"] = [x for x in s["empty"] if x != name]
        one = r.choice(["all", "all", "all", "database", "indexes", "wiggle_number"])
        seq = [r.choice(BADNAMES + s["dbs"] * 3) for _ in range(r.choice([0, 1, 2]))]
        fresh = k in ("new", "prompt") and r.random() < 0.15
        if fresh:
            seq = [x for x in seq if x in BADNAMES]
        return {"spec": s, "k": k, "name": name, "fresh": fresh, "one": one, "seq": seq}

    @staticmethod
    def check(case, H):
        from wiggle_shell.core.select_gdbms import (create_new_database, create_new_dbms, create_new_indexes_file,
                                                    create_new_wiggle_number_file, get_new_gdbms_file_paths)

        top = H.folder()
        try:
            d = top / "in" / "dbms"
            if case["fresh"]:
                (top / "in").mkdir()
            else:
                d.mkdir(parents=True)
                build_dir(d, case["spec"])
            (top / "in" / "outside.txt").write_text("outside")
            before = tree(top)
            name, k = case["name"], case["k"]
            files = {"database": f"database_{name}.json", "indexes": f"indexes_{name}.json",
                     "wiggle_number": f"wiggle_number_{name}.txt"}
            one = case["one"] if k != "prompt" else "all"
            if k == "prompt":
                answers = iter([x for x in case["seq"] if x != name] + [name])
                old = builtins.input
                builtins.input = lambda *a: next(answers)
                try:
                    v, e = H.call(create_new_dbms, d)
                finally:
                    builtins.input = old
            elif one == "all":
                v, e = H.call(get_new_gdbms_file_paths, name, d)
            else:
                fn = {"database": create_new_database, "indexes": create_new_indexes_file,
                      "wiggle_number": create_new_wiggle_number_file}[one]
                v, e = H.call(fn, name, d)
            after = tree(top)
            for p, c in before.items():
                if after.get(p, "gone") != c:
                    return f"creating {name!r} changed existing {p}"
            new = {p: c for p, c in after.items() if p not in before}
            part = case["spec"].get("part", {}).get(name, "").split(":")[0]
            if k == "bad" or (k == "taken") or (k == "part" and part and (one == "all" or one == {"idx": "indexes", "wn": "wiggle_number", "db": "database"}[part])):
                if e is None:
                    return f"creating {name!r} ({k}) was not refused; made {sorted(new)}"
                if k != "part" and new:
                    return f"refused {name!r} but made {sorted(new)}"
                return None
            if e is not None:
                return f"creating {name!r} raised {e!r}"
            want = {}
            if one == "all":
                need = list(files)
            else:
                need = [one]
            contents = {"database": {}, "indexes": {"node_relationships": {}, "node_labels": [], "relationship_names": []},
                        "wiggle_number": 0}
            base = f"in/dbms/{name}"
            for n in need:
                p = f"{base}/{files[n]}"
                if p not in new:
                    return f"{files[n]} was not made in {base}; new: {sorted(new)}"
                try:
                    val = json.loads(new[p])
                except ValueError:
                    return f"{p} holds {new[p]!r}"
                if canon(val) != canon(contents[n]):
                    return f"{p} holds {val!r}"
            extra = set(new) - {f"{base}/{files[n]}" for n in need} - {base, "in/dbms"}
            if extra:
                return f"also made {sorted(extra)}"
            if one == "all":
                got = (v.database_file_path, v.indexes_file_path, v.wiggle_number_file_path)
                if tuple(Path(x).resolve() for x in got) != tuple((d / name / files[n]).resolve() for n in need):
                    return f"paths {got}"
            elif Path(v).resolve() != (d / name / files[one]).resolve():
                return f"path {v}"
        finally:
            shutil.rmtree(top, ignore_errors=True)


class C17:
    rule = "listing, selecting by letter and deleting in DBMS folders with 0-30 databases, plain files and skipped folders"

    @staticmethod
    def case(r, size):
        k = r.choice(["list", "select", "select", "delete", "delete", "missing", "bad"])
        s = dir_spec(r, r.choice([0, 1, 2, 4, 8]))
        if k == "select" and r.random() < 0.1:
            s["dbs"] = ["db%02d" % i for i in r.sample(range(40), 27)]
        name = r.choice(s["dbs"]) if s["dbs"] else None
        if k == "delete" and not name:
            s["dbs"] = ["foo", "foo2"]
            name = "foo"
        if k == "bad":
            name = r.choice(BADNAMES)
        if k == "missing":
            name = r.choice([n for n in NAMES + ["fo*", "?oo", "*", "[f]oo"] if n not in s["dbs"]])
        s["dbs"] = [x for x in s["dbs"] if x != "tests"] if k == "select" else s["dbs"]
        return {"k": k, "spec": s, "name": name, "skips": r.choice([None, [], ["tests"], ["foo", "a"], ["tests", "__pycache__"]]),
                "letter": r.randrange(26), "wrong": r.sample(["1", "", "AA", "a", "?", " A"], r.choice([0, 1, 2])),
                "nofolder": k == "list" and r.random() < 0.1}

    @staticmethod
    def check(case, H):
        from wiggle_shell.core.select_gdbms import (delete_gdbms, get_existing_gdbms, list_existing_dbms)

        top = H.folder()
        try:
            d = top / "in" / "dbms"
            (top / "in").mkdir()
            (top / "in" / "outside.txt").write_text("outside")
            if not case["nofolder"]:
                d.mkdir()
                build_dir(d, case["spec"])
            before = tree(top)
            k = case["k"]
            dirs = sorted(x for x in (os.listdir(d) if d.is_dir() else []) if (d / x).is_dir())
            if k == "list":
                skips = None if case["skips"] is None else set(case["skips"])
                v, e = H.call(list_existing_dbms, skips, d)
                if e is not None:
                    return f"listing raised {e!r}"
                want = [x for x in dirs if x not in (skips or set())]
                if v != want:
                    return f"listed {v} instead of {want}"
                return None if tree(top) == before else "listing changed files"
            if k == "select":
                shown = [x for x in dirs if x not in ("tests", "__pycache__")]
                whole = [x for x in shown if x in case["spec"]["dbs"]]
                if not whole:
                    return None
                pick = whole[case["letter"] % len(whole)]
                if shown.index(pick) >= 26:
                    return None
                letter = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[shown.index(pick)]
                answers = iter([w for w in case["wrong"]] + [letter])
                old = builtins.input
                builtins.input = lambda *a: next(answers)
                try:
                    v, e = H.call(get_existing_gdbms, d)
                finally:
                    builtins.input = old
                if e is not None:
                    return f"selecting {letter} of {shown} after {case['wrong']} raised {e!r}"
                want = [(d / pick / f).resolve() for f in (f"database_{pick}.json", f"indexes_{pick}.json", f"wiggle_number_{pick}.txt")]
                got = [Path(x).resolve() for x in (v.database_file_path, v.indexes_file_path, v.wiggle_number_file_path)]
                if got != want:
                    return f"selecting {letter} of {shown} gave {got}"
                line = [x for x in H.out.splitlines() if x.startswith(letter + " ")]
                if pick.splitlines()[0] not in (line[0] if line else ""):
                    return f"letter {letter} was shown for {line} but stands for {pick}"
                return None if tree(top) == before else "selecting changed files"
            name = case["name"]
            if k == "missing" and (d / name).is_dir():
                return None
            v, e = H.call(delete_gdbms, name, d)
            after = tree(top)
            if k in ("missing", "bad"):
                if e is None:
                    return f"deleting {name!r} was not refused"
                return None if after == before else f"refused to delete {name!r} but files changed: {sorted(set(before) - set(after))}"
            if e is not None:
                return f"deleting {name!r} raised {e!r}"
            want = {p: c for p, c in before.items() if not (p == f"in/dbms/{name}" or p.startswith(f"in/dbms/{name}/"))}
            if after != want:
                return f"deleting {name!r}: removed {sorted(set(before) - set(after))}, kept too much {sorted(set(after) - set(want))}"
        finally:
            shutil.rmtree(top, ignore_errors=True)


class C18:
    rule = "sessions of 1-8 lines (MAKEs, FINDs, faults, help in any case, blank lines) ended by q"

    @staticmethod
    def case(r, size):
        g = UGen(r, size)
        lines = []
        for _ in range(r.choice([1, 2, 4, 8])):
            k = r.choice(["make", "make", "both", "find", "bad", "bad", "help", "blank", "mentions"])
            if k == "make":
                lines.append(g.query(nmake=r.choice([1, 2]), find=False)["txt"])
            elif k == "both":
                lines.append(g.query(nmake=1, find=True)["txt"])
            elif k == "find":
                lines.append(g.query(nmake=0, find=True)["txt"])
            elif k == "bad":
                lines.append(r.choice([bad_stmt(r, size)[1], "REPORT foo;", "nonsense", "MAEK (:A);", "quit", "Q", "q;", " q",
                                       "exit", "helpme", "MAKE (:A {a: })"]))
            elif k == "help":
                lines.append(r.choice(["help", "HELP", "Help", " help "]))
            elif k == "blank":
                lines.append(r.choice(["", " "]))
            else:
                UGen.count += 1
                lines.append(r.choice(["MAKE (help:Help_%d);", "MAKE (:A_%d {q: 'help'});", "MAKE (q:Q_%d);", "MAKE (n:help_%d {help: 1});"]) % UGen.count)
        return {"lines": lines + ["q"]}

    @staticmethod
    def check(case, H):
        import sys

        f, ref = H.db(), H.db()
        try:
            # reference: each line by itself on a second database
            want_out = []
            for ln in case["lines"]:
                if ln == "q" or ln.strip().lower() == "help":
                    want_out.append((ln, None, ""))
                    continue
                _, e = H.query(ln, ref)
                want_out.append((ln, e, H.out))
            import importlib

            ws = importlib.import_module("wiggle_shell.wiggleshell")
            answers = list(case["lines"])
            asked = []
            outs = []
            buf = io.StringIO()

            class End(BaseException):
                pass

            def inp(*a):
                outs.append(buf.getvalue())
                buf.seek(0)
                buf.truncate()
                if not answers:
                    raise End()
                asked.append(answers.pop(0))
                return asked[-1]

            old_in, old_sel = builtins.input, ws.select_gdbms
            builtins.input, ws.select_gdbms = inp, lambda *a, **k: f.paths
            err = None
            try:
                with contextlib.redirect_stdout(buf):
                    ws.start_wiggle_shell()
            except End:
                err = "the shell asked for more after q"
            except BaseException as e:  # an error must not end the shell
                err = f"the shell ended with {e!r} at {asked[-1:]!r}"
            finally:
                builtins.input, ws.select_gdbms = old_in, old_sel
            outs.append(buf.getvalue())
            if err:
                return err
            if answers:
                return f"the shell ended before {answers!r}"
            for k, (ln, e, out) in enumerate(want_out):
                shown = outs[k + 1]
                if e is not None and str(e) not in shown:
                    return f"the error of {ln!r} ({e!r}) was not shown: {shown!r}"
                if ln.strip().lower() == "help" and "help" not in shown.lower().replace(ln.lower(), "", 1):
                    return f"help was not shown for {ln!r}: {shown!r}"
            strip = lambda db: sorted((v["node_label"], canon(v["properties"]),
                                       canon([[x["relationship_name"], x["properties"]] for x in v["relations"] or []]))
                                      for v in db.values())
            if strip(f.load()) != strip(ref.load()) or f.counter() != ref.counter():
                return f"after {case['lines']!r} the database holds {strip(f.load())} instead of {strip(ref.load())}"
            return C18.direct(case, H)
        finally:
            f.done()
            ref.done()

    @staticmethod
    def direct(case, H):
        """MAKE only is executed; neither MAKE nor FIND is rejected."""
        for ln in case["lines"]:
            f = H.db()
            try:
                low = ln.lower()
                if "make" not in low and "find" not in low and ln != "q" and low.strip() != "help":
                    _, e = H.query(ln, f)
                    if e is None:
                        return f"{ln!r} has neither MAKE nor FIND but was not rejected"
            finally:
                f.done()


class C18b:
    pass


class C19:
    rule = "wipes of the database and the three indexes with the flag absent, False, None, 0 or True"

    @staticmethod
    def case(r, size):
        db = {str(k): record(k, "A" * r.choice([1, 50])) for k in r.sample(range(50), r.choice([0, 1, 4]))}
        return {"db": fmt_json(r, db), "idx": fmt_json(r, rand_indexes(r)), "what": r.choice(["db"] + list(INDEX)),
                "flag": r.choice(["absent", False, None, 0, "", True, True])}

    @staticmethod
    def check(case, H):
        from wiggle_query_language.graph.database.database import wipe_database

        f = H.db(db=case["db"], idx=case["idx"], wn="99")
        try:
            before = f.snap()
            fn = wipe_database if case["what"] == "db" else index_fns(case["what"])[2]
            p = f.paths.database_file_path if case["what"] == "db" else f.paths.indexes_file_path
            _, e = H.call(fn, p) if case["flag"] == "absent" else H.call(fn, p, im_sure=case["flag"])
            if e is not None:
                return f"wipe raised {e!r}"
            if case["flag"] is not True:
                return None if f.snap() == before else f"wiped {case['what']} without confirmation ({case['flag']!r})"
            want_db = {} if case["what"] == "db" else json.loads(case["db"])
            want_idx = json.loads(case["idx"])
            if case["what"] != "db":
                want_idx[case["what"]] = {} if case["what"] == "node_relationships" else []
            try:
                if canon(f.load()) != canon(want_db):
                    return f"database holds {f.load()}"
                if norm_idx(f.indexes()) != norm_idx(want_idx):
                    return f"indexes hold {f.indexes()} instead of {want_idx}"
                got = f.indexes()
                if case["what"] != "db" and canon(got[case["what"]]) != canon(want_idx[case["what"]]):
                    return f"wiped index holds {got[case['what']]!r}"
            except ValueError as x:
                return f"file is not valid: {x}"
            if f.counter() != 99:
                return "counter changed"
        finally:
            f.done()


class C20:
    rule = "statements of 1-3+ patterns over all shapes, handles, labels, property texts, arrows and whitespace, as MAKE and FIND"

    @staticmethod
    def case(r, size):
        g = Gen(r, size)
        return {"make": g.stmt(), "find": g.find()}

    @staticmethod
    def cmp(p, got):
        keys = ["left_node", "middle_node", "right_node"]
        rk = ["left_middle_rel", "middle_right_rel"]
        for i, k in enumerate(keys):
            nd = p["nodes"][i] if i < len(p["nodes"]) else None
            t = getattr(got, k)
            if nd is None:
                if t or any(getattr(got, f"{k}_{x}") for x in ("handle", "label", "props")):
                    return f"{k} was not written: {t!r}"
                continue
            if not t or t.strip() != nd["txt"].strip():
                return f"{k} is {t!r} instead of {nd['txt']!r}"
            w = (nd["handle"], nd["label"], (nd["props"] or {"txt": ""})["txt"].strip())
            g = tuple((getattr(got, f"{k}_{x}") or "") for x in ("handle", "label", "props"))
            if (g[0], g[1], g[2].strip()) != w:
                return f"{k} was read as {g} instead of {w}"
        for i, k in enumerate(rk):
            rel = p["rels"][i] if i < len(p["rels"]) else None
            t = getattr(got, k)
            if rel is None:
                if t or any(getattr(got, f"{k}_{x}") for x in ("handle", "label", "props")):
                    return f"{k} was not written: {t!r}"
                continue
            if not t or t.strip() != rel["txt"].strip():
                return f"{k} is {t!r} instead of {rel['txt']!r}"
            w = (rel["handle"], rel["name"], (rel["props"] or {"txt": ""})["txt"].strip())
            g = tuple((getattr(got, f"{k}_{x}") or "") for x in ("handle", "label", "props"))
            if (g[0], g[1], g[2].strip()) != w:
                return f"{k} was read as {g} instead of {w}"

    @staticmethod
    def check(case, H):
        from wiggle_query_language.clauses.find.parse_find.parse_find_statement import parse_find_statement_from_query_string
        from wiggle_query_language.clauses.make.parse_make.parse_make_statement import parse_make_statement_from_query_string

        got, e = H.call(parse_make_statement_from_query_string, case["make"]["txt"])
        if e is not None or not got or len(got) != 1:
            return f"{case['make']['txt']!r} gave {got!r:.100} {e!r}"
        pats = got[0].parsed_pattern_list
        if len(pats) != len(case["make"]["patterns"]):
            return f"{len(case['make']['patterns'])} patterns written, {len(pats)} read from {case['make']['txt']!r}"
        for p, g in zip(case["make"]["patterns"], pats):
            m = C20.cmp(p, g)
            if m:
                return f"{case['make']['txt']!r}: {m}"
        got, e = H.call(parse_find_statement_from_query_string, case["find"]["txt"])
        if e is not None or got is None:
            return f"{case['find']['txt']!r} gave {e!r}"
        m = C20.cmp(case["find"]["pattern"], got.parsed_pattern)
        if m:
            return f"{case['find']['txt']!r}: {m}"


PROPS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
