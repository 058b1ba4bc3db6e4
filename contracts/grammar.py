"""The documented grammar of WQL as labelled languages (nothing here reads /repo)."""
import re
import unicodedata

RESERVED = ("true", "false", "True", "False", "None", "none", "Null")


def ranges(test):
    """source of a character class"""
    out, start = [], None
    for i in range(0x110001):
        ok = i < 0x110000 and test(chr(i))
        if ok and start is None:
            start = i
        if not ok and start is not None:
            out.append(f"\\U{start:08x}-\\U{i-1:08x}")
            start = None
    return "".join(out)


def not_words(words, cs):
    """texts over the class cs except the words"""
    words = set(words)
    if not words:
        return f"{cs}*"
    firsts = sorted({w[0] for w in words if w})
    alts = [f"{c}(?:{not_words({w[1:] for w in words if w and w[0] == c}, cs)})" for c in firsts]
    alts.append(f"(?![{''.join(firsts)}]){cs}{cs}*" if firsts else f"{cs}{cs}*")
    if "" not in words:
        alts.append("")
        return "(?:" + "|".join(alts[:-1]) + ")?"
    return "(?:" + "|".join(alts) + ")"


S = r"\s*"
LS = r"[ \t\n]*"  # inside of lists
INT = "[0-9]+"
FLOAT = r"[0-9]+\.[0-9]+"
S1 = "'" + not_words(RESERVED, r'[\w\s.@"]') + "'"
S2 = '"' + not_words(RESERVED, r"[\w\s.@']") + '"'
L1 = r"""'(?:(?![\n\r])[\w\s.@"])*'"""
L2 = r'''"(?:(?![\n\r])[\w\s.@'])*"'''


def lab(name, x, on=True):
    return f"(?P<{name}__N>{x})" if on else f"(?:{x})"


def number(p):
    """the labels of a spec pattern get distinct names"""
    n = [0]

    def f(m):
        n[0] += 1
        return f"__{n[0]}>"

    return re.sub("__N>", f, p)


def lst(labels=False):
    v = "|".join([lab("lit", FLOAT, labels), lab("lit", "0|[1-9][0-9]*", labels), lab("lit", L1, labels), lab("lit", L2, labels),
                  lab("true", "true", labels), lab("false", "false", labels), lab("null", "null", labels)])
    # a comma stands before another value, never before the bracket
    return rf"\[{LS}(?:(?:{v}){LS}(?:,{LS}(?!\])|(?=\])))*\]"


VALUE = rf"(?:{FLOAT}|{INT}|true|false|null|{S1}|{S2}|{lst()})"
VALUE_GLUED = rf"(?:{S1}|{S2}|{lst()})"


def entry(labels=False):
    v = "|".join([lab("int", INT, labels), lab("float", FLOAT, labels), lab("true", "true", labels), lab("false", "false", labels), lab("null", "null", labels),
                  "'" + lab("str", S1[1:-1], labels) + "'", '"' + lab("str", S2[1:-1], labels) + '"', lab("list", lst(), labels)])
    return lab("key", r"\w+", labels) + rf"{S}:{S}(?:{v})"


def props(labels=False):
    """{} or {a: 1, b: 'x'}"""
    return rf"\{{(?:{S}(?:{lab('entry', entry(labels), labels)}{S}(?:,{S}(?!\}})|(?=\}})))+)?\}}"


def upper_name():
    w = re.compile(r"\w")
    low = lambda c: c.islower() or unicodedata.category(c) == "Lt"
    up = "[" + ranges(lambda c: w.match(c) and c.isupper()) + "]"
    rest = "[" + ranges(lambda c: w.match(c) and not low(c)) + "]"
    notup = "[" + ranges(lambda c: w.match(c) and not low(c) and not c.isupper()) + "]"
    lower = "[" + ranges(lambda c: w.match(c) and low(c)) + "]"
    return f"{notup}*{up}{rest}*", rf"(?:{notup}+|\w*{lower}\w*)"


UPPER, NOT_UPPER = upper_name()


def node(slot, labels=False, p=None):
    p = props() if p is None else p
    return lab(f"{slot}_node", rf"\({S}{lab(slot + '_node_handle', chr(92) + 'w*', labels)}{S}:{S}{lab(slot + '_node_label', chr(92) + 'w+', labels)}{S}(?:{lab(slot + '_node_props', p, labels)}{S})?\)", labels)


def rel(slot, labels=False, p=None, name=None):
    p = props() if p is None else p
    h, n = lab(slot + "_rel_handle", r"\w+", labels), lab(slot + "_rel_label", name or UPPER, labels)
    body = rf"\[{S}(?:(?:{h}{S})?(?::{S}(?:{n}{S})?)?)(?:{lab(slot + '_rel_props', p, labels)}{S})?\]"
    return lab(f"{slot}_rel", rf"(?:<-+{body}-+|-+{body}-+>)", labels)


def pattern(labels=False, p=None):
    return lab("pattern", rf"{node('left', labels, p)}(?:{S}{rel('left_middle', labels, p)}{S}{node('middle', labels, p)}(?:{S}{rel('middle_right', labels, p)}{S}{node('right', labels, p)})?)?", labels)


COARSE = r"\{[\w\s,:'\"\.@\[\]]*\}"  # around every documented property map


def keyword(w):
    if not w.isalpha():
        return w
    return "".join(f"[{c.upper()}{c.lower()}]" for c in w)


def statement(word, labels=False, many=True, p=None):
    if many:
        return rf"{keyword(word)}{S}(?:{pattern(labels, p)}{S}(?:,{S}(?=\()|(?=;)))+;"
    return rf"{keyword(word)}{S}{pattern(labels, p)}{S};"
