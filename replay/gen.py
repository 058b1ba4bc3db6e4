"""Seeded generator of queries in the documented notation, with what they mean.

Nothing here reads the code under test: texts are built from abstract patterns,
so the expected reading is known by construction.
"""
import copy
import random

WORDS = ["a", "n", "foo", "Bar", "left_node", "x1", "9z", "_u", "MAKE", "Find", "report", "make1", "REPORT",
         "true_", "Null1", "é", "naïve", "Straße", "NodeLabel", "right", "middle", "Reporter", "handle", "none1"]
RELN = ["REL", "KNOWS", "A", "R2", "LONG_NAME", "MAKE", "X_1", "ÉTÉ", "FIND"]
STRW = ["a", "2", "2_4", "foo", "Bar", "null", "true story", "MAKE", "1.5", "foo@bar.net", "null and void", "not true",
        "x", "Find", "Nullable", "é"]
WS = ["", "", "", " ", "  ", "\n", "\t", " \n "]
NAMECH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789____éßñΩж"
RELCH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ÉÑΩЖ"
STRCH = NAMECH + "..@@0123456789   "
RESERVED = {"Null", "None", "none", "true", "True", "false", "False"}


class Gen:
    dup = True  # the same pattern or statement may be written twice

    def __init__(self, rng, size=2):
        self.r = rng
        self.size = size

    def ws(self):
        if self.r.random() < 0.5:
            return ""
        return self.r.choice(WS)

    def lws(self):
        return self.r.choice(["", "", " ", "  ", "\t", "\n", " \n"])

    def word(self, chars, first=None):
        r = self.r
        return "".join(r.choice(first if first and not k else chars) for k in range(r.choice([1, 1, 2, 2, 3, 5, 9, 17, 40])))

    def name(self, ws):
        return self.r.choice(ws) if self.r.random() < 0.8 else self.word(NAMECH)

    # ---- values
    def string(self, in_list=False):
        r = self.r
        q = r.choice("'\"")
        other = '"' if q == "'" else "'"
        n = r.choice([0, 1, 1, 1, 2, 3])
        parts = []
        for k in range(n):
            parts.append(r.choice(STRW) if r.random() < 0.75 else self.word(STRCH))
            if r.random() < 0.15:
                parts.append(r.choice([other, ".", "@", " " + other]))
            if r.random() < 0.3:
                parts.append(r.choice([" ", "  ", "\t"] + ([] if in_list else ["\n"])))
            elif k < n - 1:
                parts.append(" ")
        s = "".join(parts)
        if r.random() < 0.1:
            s = " " + s + " "
        if s.strip() in RESERVED or s in RESERVED:
            s = s + "x"
        return {"t": "str", "txt": q + s + q, "v": s}

    def scalar(self, in_list=False):
        r = self.r
        k = r.choice(["int", "int", "float", "bool", "null", "str", "str", "str"])
        if k == "int":
            v = r.choice([0, 1, 7, 10, 42, 123, 2 ** 31, 2 ** 63 + 1, 10 ** 30, r.randrange(10 ** 6), r.randrange(10 ** r.choice([7, 12, 18, 19, 20, 40]))])
            txt = str(v)
            if not in_list and r.random() < 0.1:
                txt = "0" * r.randrange(1, 4) + txt
            return {"t": "int", "txt": txt, "v": v}
        if k == "float":
            txt = r.choice(["3.14", "0.0", "1.0", "10.50", "007.25", "2.0000001", "123456789.987654321",
                            "%d.%d" % (r.randrange(1000), r.randrange(1000)),
                            "%d.%s" % (r.randrange(3), "".join(r.choice("0123456789") for _ in range(r.choice([5, 12, 17, 20, 30])))),
                            "%d.%s" % (r.randrange(10 ** r.choice([3, 9, 15, 22])), r.choice(["0", "00", "5", "25", "000001"]))])
            if in_list and txt.startswith("00"):
                txt = "7.25"
            return {"t": "float", "txt": txt, "v": float(txt)}
        if k == "bool":
            v = r.random() < 0.5
            return {"t": "bool", "txt": "true" if v else "false", "v": v}
        if k == "null":
            return {"t": "null", "txt": "null", "v": None}
        return self.string(in_list)

    def value(self):
        if self.r.random() < 0.25:
            items = [self.scalar(True) for _ in range(self.r.choice([0, 1, 1, 2, 3, 5]))]
            txt = "[" + self.lws()
            for k, it in enumerate(items):
                if k:
                    txt += self.lws() + "," + self.lws()
                txt += it["txt"]
            txt += (self.lws() if items else "") + "]"
            return {"t": "list", "txt": txt, "v": [i["v"] for i in items], "items": items}
        return self.scalar()

    def names(self, n):
        out = []
        while len(out) < n:
            w = self.name(WORDS + ["int", "float", "str2", "list", "email", "none", "bool", "p%d" % self.r.randrange(99)])
            if w not in out:
                out.append(w)
        return out

    def props(self, p_none=0.45):
        """-> None or {'txt', 'v'}"""
        r = self.r
        if r.random() < p_none:
            return None
        n = r.choice([0, 1, 1, 1, 2, 2, 3, 4 + self.size])
        txt, v, types = "{" + (self.ws() if n else ""), {}, {}
        for k, name in enumerate(self.names(n)):
            val = self.value()
            if k:
                txt += self.ws() + "," + self.ws()
            txt += name + self.ws() + ":" + self.ws() + val["txt"]
            v[name] = val["v"]
            types[name] = val["t"]
        txt += (self.ws() if n else "") + "}"
        return {"txt": txt, "v": v, "types": types}

    # ---- patterns
    def pattern(self, nnodes=None, props=0.5):
        r = self.r
        nn = nnodes or r.choice([1, 1, 2, 2, 3, 3])
        handles = set()

        def handle():
            if r.random() < 0.5:
                return ""
            h = self.name(WORDS) + (str(len(handles)) if r.random() < 0.5 else "")
            if h in handles:
                return ""
            handles.add(h)
            return h

        nodes, rels, txt = [], [], ""
        parts = []
        for k in range(nn):
            nd = {"handle": handle(), "label": self.name(WORDS), "props": self.props(props)}
            t = "(" + self.ws() + nd["handle"] + self.ws() + ":" + self.ws() + nd["label"] + self.ws()
            if nd["props"]:
                t += nd["props"]["txt"] + self.ws()
            t += ")"
            nd["txt"] = t
            nodes.append(nd)
            parts.append(t)
            if k < nn - 1:
                rel = {"handle": handle(), "name": (r.choice(RELN) if r.random() < 0.8 else self.word(RELCH, RELCH[:26])) if r.random() < 0.75 else "",
                       "props": self.props(props + 0.2), "dir": r.choice("lr")}
                body = "[" + self.ws()
                if rel["handle"] or rel["name"] or r.random() < 0.3:
                    colon = ":" if (rel["name"] or r.random() < 0.5) else ""
                    body += rel["handle"] + self.ws() + colon + self.ws() + rel["name"]
                body += self.ws()
                if rel["props"]:
                    body += rel["props"]["txt"] + self.ws()
                body += "]"
                s1, s2 = "-" * r.choice([1, 1, 1, 2, 3, 9, 14]), "-" * r.choice([1, 1, 1, 2, 5, 12])
                t = ("<" if rel["dir"] == "l" else "") + s1 + body + s2 + (">" if rel["dir"] == "r" else "")
                rel["txt"] = t
                rel["body"] = body
                rels.append(rel)
                parts.append(t)
        txt = parts[0]
        for p in parts[1:]:
            txt += self.ws() + p
        return {"nodes": nodes, "rels": rels, "txt": txt}

    def kw(self, w):
        return self.r.choice([w, w, w.lower(), w.capitalize(), "".join(self.r.choice([c, c.lower()]) for c in w)])

    def stmt(self, npat=None, kw="MAKE", props=0.5, nnodes=None):
        r = self.r
        npat = npat or r.choice([1, 1, 1, 2, 3, 1 + self.size])
        pats = [self.pattern(nnodes, props) for _ in range(npat)]
        if self.dup and kw == "MAKE" and r.random() < 0.2:
            pats.insert(r.randrange(len(pats) + 1), copy.deepcopy(r.choice(pats)))
        txt = self.kw(kw) + r.choice(["", " ", " ", "  ", "\n"]) + pats[0]["txt"]
        for p in pats[1:]:
            txt += self.ws() + "," + self.ws() + p["txt"]
        txt += self.ws() + ";"
        return {"patterns": pats, "txt": txt}

    def find(self, props=0.5, nnodes=None):
        s = self.stmt(1, "FIND", props, nnodes)
        return {"pattern": s["patterns"][0], "txt": s["txt"]}

    def report(self, handles, bad=None):
        r = self.r
        hs = list(handles)
        r.shuffle(hs)
        hs = hs[: r.randrange(0, len(hs) + 1)] or hs[:1]
        if bad:
            hs.insert(r.randrange(0, len(hs) + 1), bad)
        items = []
        for h in hs:
            f = r.choice(["{h}", "{h}.bar", "wn({h})", "{h}.a_1", "wn( {h} )"])
            items.append(f.format(h=h))
            if r.random() < 0.2:
                items.append(h + ".other")
        if not items:
            items = ["*"]
        txt = self.kw("REPORT") + " " + items[0]
        for i in items[1:]:
            txt += self.ws() + "," + self.ws() + i
        return {"handles": hs, "txt": txt + self.ws() + ";"}

    def query(self, nmake=None, find=None, report=None, props=0.5):
        r = self.r
        nmake = r.choice([0, 1, 1, 2, 3]) if nmake is None else nmake
        has_find = (r.random() < 0.4) if find is None else find
        makes = [self.stmt(props=props) for _ in range(nmake)]
        if self.dup and makes and r.random() < 0.15:
            makes.insert(r.randrange(len(makes) + 1), copy.deepcopy(r.choice(makes)))
        fnd = self.find(props) if has_find else None
        rep = None
        clauses = [("MAKE", m["txt"]) for m in makes]
        if fnd:
            clauses.insert(r.randrange(len(clauses) + 1), ("FIND", fnd["txt"]))
            want = (r.random() < 0.5) if report is None else report
            if want:
                rep = self.report(pattern_handles(fnd["pattern"]))
                clauses.insert(r.randrange(len(clauses) + 1), ("REPORT", rep["txt"]))
        txt = r.choice(["", "", "\n", "  "])
        for k, (_, t) in enumerate(clauses):
            if k:
                txt += r.choice(["", " ", "\n", "\n\n  ", "\t", "\r\n"])
            txt += t
        txt += r.choice(["", "", "\n", " "])
        return {"makes": makes, "find": fnd, "report": rep, "txt": txt, "clauses": clauses}


def pattern_handles(p):
    return [x["handle"] for x in p["nodes"] + p["rels"] if x["handle"]]
