"""Words of the sources of the compiler: what its text may be sensitive to."""
import glob, os, re
from .common import REPO

TAGS = ["@param", "@param[in]", "@param[out]", "@return", "@returns", "@brief", "@note", "@deprecated", "@optional", "@internal", "@hide", "@see", "\\param", "\\brief", "{@link x}", "TODO", "FIXME", "NOLINT",
        "#[optional]", "#[deprecated]", "[optional]", "optional", "in", "out", "buffer", "interface", "struct", "method", "error", "const", "include", "uint8", "float64", "0x10", "-1", "1.5", "[]", "[4]", "(", ")", ");", "{", "};", ";", ",", "=",
        "//", "///", "//!", "/*", "/**", "#", "#!", "#[", "#if", "#include", "\"", "'", "`", "```", "\\", "%s", "%d", "{}", "{0}", "$", "&amp;", "<b>", "*", "**", " ", "\t", "-", "--", "-->", "<!--", "???/", "\u00e9", "\u4e16", "\ufeff", "\u2028", "0", "x"]
_lits = None
def literals():
    """short string literals of the sources that are not tests"""
    global _lits
    if _lits is None:
        s = set()
        for f in sorted(glob.glob(os.path.join(REPO, "idlc*", "src", "**", "*.rs"), recursive=True) + glob.glob(os.path.join(REPO, "idlc*", "src", "**", "*.pest"), recursive=True)):
            if os.path.basename(os.path.dirname(f)) == "tests" or os.path.basename(f) == "tests.rs": continue
            t = open(f, encoding="utf-8", errors="replace").read()
            t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
            for x in re.findall(r'"((?:[^"\\\n]|\\.){1,24})"', t) + re.findall(r"'((?:[^'\\\n]|\\.))'", t):
                x = x.replace("\\n", "\n").replace("\\t", "\t").replace('\\"', '"').replace("\\r", "\r").replace("\\\\", "\\")
                if x.strip(): s.add(x)
        _lits = sorted(s)
    return _lits

def line(r, extra=()):
    v = [TAGS, literals()] + ([list(extra)] if extra else [])
    n = r.randint(1, 6) if r.random() < .85 else r.randint(20, 90)
    t = r.choice(["", " "]).join(r.choice(["", " "]) + r.choice(r.choice(v)) for _ in range(n))
    if r.random() < .1: t = "x" * r.randint(0, 3) + r.choice(["\u00e9", "\u4e16", "\U0001f600", "-", "*", " ", "ab"]) * r.choice([30, 70, 130, 300, 2000]) + t
    return t

def doc(r, extra=()):
    """text of a documentation block"""
    t = "\n".join(r.choice([" * ", "   * ", "*", "", "\t"]) + line(r, extra).replace("\n", " ") for _ in range(r.randint(1, 4)))
    while "*/" in t: t = t.replace("*/", "* /")
    return t + r.choice(["\n", "\n   ", ""]) if not t.endswith("*") else t + "\n"

def comment(r, extra=()):
    """an ordinary comment, white space after"""
    if r.random() < .5: return "//" + line(r, extra).replace("\n", " ").replace("\r", " ") + "\n"
    t = line(r, extra)
    while "*/" in t: t = t.replace("*/", "* /")
    if t.startswith("*"): t = " " + t      # not documentation
    return "/*" + t + ("" if not t.endswith("*") else " ") + "*/ "
