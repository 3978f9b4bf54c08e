#!/usr/bin/env python3
"""Reads corpus/tailwind.css (output of Tailwind) with a small CSS parser of its own and writes what it means,
in the terms of spec/Sheet.tla, to corpus/tailwind.json.  tools/css2items.py [FILE.css FILE.json]"""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# pseudo-classes and pseudo-elements that the library does not know are "bad": see cascadia's documentation
PSEUDO = {"hover", "focus", "active", "visited", "target", "read-only", "popover-open", "empty", "root", "link", "enabled", "disabled",
          "checked", "only-child", "only-of-type", "input", "host", "focus-within", "focus-visible", "autofill", "modal", "fullscreen"}
ELEMENTS = {"after", "backdrop", "before", "cue", "first-letter", "first-line", "grammar-error", "marker", "placeholder", "selection", "spelling-error"}
VENDOR = {"-moz-read-only", "-moz-ui-invalid", "-moz-placeholder", "-moz-focusring", "-webkit-scrollbar", "-webkit-scrollbar-thumb", "-webkit-scrollbar-track",
          "-webkit-outer-spin-button", "-webkit-inner-spin-button", "-webkit-search-decoration", "-webkit-file-upload-button"}
NTH = {"first-child": (0, 1, False, False), "last-child": (0, 1, True, False), "first-of-type": (0, 1, False, True), "last-of-type": (0, 1, True, True)}


class Text:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def end(self):
        return self.i >= len(self.s)

    def space(self):
        j = self.i
        while self.peek() and self.peek() in " \t\n\r\f":
            self.i += 1
        return self.i > j

    def name(self):
        out = ""
        while not self.end():
            c = self.peek()
            if c == "\\":
                m = re.compile(r"\\([0-9a-fA-F]{1,6})[ \t\n\f]?").match(self.s, self.i)
                if m:
                    out += chr(int(m.group(1), 16))
                    self.i = m.end()
                else:
                    out += self.s[self.i + 1]
                    self.i += 2
            elif c.isalnum() or c in "-_" or ord(c) > 127:
                out += c
                self.i += 1
            else:
                break
        if not out:
            raise ValueError("name expected at %r" % self.s[self.i:self.i + 30])
        return out


class Unsupported(Exception):
    pass


def compound(t):
    parts, pe, star = [], "", False
    while not t.end():
        c = t.peek()
        if c == "*":
            t.i += 1
            star = True
        elif c == ".":
            t.i += 1
            parts.append({"k": "class", "v": t.name()})
        elif c == "#":
            t.i += 1
            parts.append({"k": "id", "v": t.name()})
        elif c == "[":
            t.i += 1
            key = t.name()
            op = val = ""
            if t.peek() != "]":
                m = re.compile(r"""([~|^$*]?=)(?:'([^'\\]*)'|"([^"\\]*)"|([\w-]+))""").match(t.s, t.i)
                op, val = m.group(1), m.group(2) or m.group(3) or m.group(4) or ""
                t.i = m.end()
            assert t.peek() == "]"
            t.i += 1
            parts.append({"k": "attr", "key": key, "op": op, "val": val, "i": False})
        elif c == ":":
            two = t.peek(2) == "::"
            t.i += 2 if two else 1
            n = t.name()
            if t.peek() == "(":
                t.i += 1
                if n not in ("is", "where", "not", "has"):
                    raise Unsupported(n)
                args = [selector(t)]
                while t.peek() == ",":
                    t.i += 1
                    args.append(selector(t))
                assert t.peek() == ")"
                t.i += 1
                parts.append({"k": "fn", "v": n, "args": args})
            elif n in ELEMENTS:
                pe = n
            elif n in NTH:
                a, b, last, of = NTH[n]
                parts.append({"k": "nth", "a": a, "b": b, "last": last, "of": of})
            elif n in VENDOR:
                parts.append({"k": "pel" if two else "ps", "v": n})
            elif n in PSEUDO and not two:
                parts.append({"k": "ps", "v": n})
            else:
                raise Unsupported(n)
        elif c.isalpha():
            parts.append({"k": "tag", "v": t.name()})
        else:
            break
    if not parts and not star and not pe:
        raise ValueError("selector expected at %r" % t.s[t.i:t.i + 30])
    if len(parts) == 1 and not pe:
        return parts[0]
    return {"k": "cmp", "parts": parts, "pe": pe}


def selector(t):
    t.space()
    left = compound(t)
    while True:
        sp = t.space()
        c = t.peek()
        if c in (">", "+", "~") and c:
            t.i += 1
            t.space()
        elif sp and c and c not in ",)":
            c = " "
        else:
            return left
        left = {"k": "comb", "c": c, "l": left, "r": compound(t)}


def selector_or_bad(s):
    try:
        t = Text(s)
        r = selector(t)
        assert t.end(), s
        return r
    except Unsupported:
        return {"k": "bad", "v": s}


def split(s, sep):
    """Splits outside of brackets, strings and escapes."""
    out, depth, q, cur, i = [], 0, "", "", 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            cur += s[i:i + 2]
            i += 2
            continue
        if q:
            q = "" if c == q else q
        elif c in "'\"":
            q = c
        elif c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == sep and depth == 0:
            out.append(cur)
            cur = ""
            i += 1
            continue
        cur += c
        i += 1
    return out + [cur]


def declarations(s):
    out = []
    for d in split(s, ";"):
        if not d.strip():
            continue
        p, v = d.split(":", 1)
        p = p.strip()
        v = v.strip()
        imp = re.search(r"!\s*important$", v, re.I)
        if imp:
            v = v[:imp.start()]
        val = re.sub(r"[ \t\r\n\f]+", "", v) + ("!important" if imp else "")
        out.append({"p": p if p.startswith("--") else p.lower(), "i": bool(imp), "vars": sorted(set(re.findall(r"var\(\s*(--[\w-]+)", v))), "val": val})
    return out


def block(s, i):
    """The end of the block that begins before i."""
    depth, q = 1, ""
    while True:
        c = s[i]
        if c == "\\":
            i += 1
        elif q:
            q = "" if c == q else q
        elif c in "'\"":
            q = c
        elif c == "{":
            depth += 1
        elif c == "}":
            depth -= 1
            if depth == 0:
                return i
        i += 1


def items(s):
    out, i, start = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            i += 2
            continue
        if c == ";":
            out.append(({"t": "junk"}, s[start:i + 1]))
            start = i + 1
        elif c == "{":
            prelude = s[start:i].strip()
            e = block(s, i + 1)
            body, src = s[i + 1:e], s[start:e + 1]
            if prelude.startswith("@media") or prelude.startswith("@supports"):
                kind, cond = prelude[1:].split(None, 1)
                out.append(({"t": "at", "kind": kind, "cond": cond, "body": [it for it, _ in items(body)]}, src))
            elif prelude.startswith("@"):
                out.append(({"t": "junk"}, src))
            else:
                out.append(({"t": "rule", "sels": [selector_or_bad(x.strip()) for x in split(prelude, ",")], "decls": declarations(body)}, src))
            start = i = e + 1
            continue
        i += 1
    assert not s[start:].strip(), s[start:]
    return out


def main():
    css, out = (sys.argv + [None, None])[1:3] if len(sys.argv) > 2 else (os.path.join(HERE, "corpus/tailwind.css"), os.path.join(HERE, "corpus/tailwind.json"))
    s = open(css, encoding="utf-8").read()
    bare = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    with open(out, "w", encoding="utf-8") as f:
        for it, src in items(bare):
            f.write(json.dumps({"item": it, "src": src.strip()}, ensure_ascii=False) + "\n")


main()
