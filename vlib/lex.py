"""Lexing generated code into comments and code tokens (no expectations here)."""
import re

def lex(text, lang):
    """-> [(k, s)]: k 'c' comment, 't' token.  lang: c, cpp, rust, java"""
    if lang == "java":   # unicode escapes are translated before anything else
        text = re.sub(r"(?<!\\)((?:\\\\)*)\\u+([0-9a-fA-F]{4})", lambda m: m.group(1) + chr(int(m.group(2), 16)), text)
        if re.search(r"(?<!\\)(?:\\\\)*\\u", text): return [("t", "<bad unicode escape>")]
    out = []; i = 0; n = len(text)
    tok = re.compile(r"[A-Za-z_][A-Za-z0-9_]*(?:#[A-Za-z_][A-Za-z0-9_]*)?|\d[\w.]*|\S")
    while i < n:
        ch = text[i]
        if ch.isspace(): i += 1; continue
        if text.startswith("//", i):
            j = i
            while True:
                e = text.find("\n", j); e = n if e < 0 else e
                if lang in ("c", "cpp") and text[i:e].rstrip(" \t\r").endswith("\\") and e < n: j = e + 1; continue
                break
            out.append(("c", text[i:e].rstrip())); i = e
        elif text.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if text.startswith("*/", j): d -= 1; j += 2
                elif lang == "rust" and text.startswith("/*", j): d += 1; j += 2
                else: j += 1
            out.append(("c" if d == 0 else "t", text[i:j])); i = j
        elif ch == '"':
            j = i + 1
            while j < n and text[j] != '"': j += 2 if text[j] == "\\" else 1
            out.append(("t", text[i:j+1])); i = j + 1
        else:
            m = tok.match(text, i); out.append(("t", m.group(0))); i = m.end()
    return out

def trim(a, b, ctx=14, before=0):
    """drop the common beginning and all but ctx tokens of the common end"""
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
    j = 0
    while j < len(a) - i and j < len(b) - i and a[-1-j] == b[-1-j]: j += 1
    # a comment at the boundary must stay in its group
    while i > 0 and a[i-1][0] == "c": i -= 1
    i = max(0, i - before)
    ea = len(a) - j + ctx; eb = len(b) - j + ctx
    return a[i:ea], b[i:eb]
