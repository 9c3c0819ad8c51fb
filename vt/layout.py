"""Rendering of token sequences: separators, comments, letter case."""

FILL = [" ", "  ", "\t", "\n", "\r\n", "\n\n", " \t ", "-- c\n", "--\n", " -- it's ; ) /* \"\n", "/* c */",
        "/**/", "/* a\n b */", "/* -- ' \" ` ; */", "/***/", "/* * / */", "\n\t", " --x\r\n", "/*\n\n*/ ",
        "--c\n--d\n", "/*a*//*b*/", "/*/ */", "/* /* */",
        "-- a\rb\n", "/* a\rb\r\n */", "-- a\tb\x0b\x0c\x00\u00a0\ufeff\u3000\u2028\u0085 é日\U0001F600\n",
        "/* \t\x0b\x0c\x00\u00a0\ufeff\u3000\u2028\u0085 é日\U0001F600 */", "-- \\\n", "/* \\*/", "-- */\n", "-- /*\n",
        "-- <EOF>\n", "/*<EOF>*/", "-- CREATE TABLE x (a TEXT);\n", "/* ); DROP */", "/* $$ ${x} %s [a] {b} */", "/*+ HINT */",
        "/*! 40101 SET x */", "/*- */", "/*# */", "\t\t\n\n\r\n\r\n", "--\t\n", "-- -- --\n", "---\n", "-----\n", "/****/", "/*****/",
        "/*\r*/", "--\r\n"]
FILL_MY = ["# c\n", "#\n", " # it's /* \n", "#--\n", "## x\n", "# a\rb\n", "#/*\n", "# */\n", "#'\n", "#\r\n"]


def needs_space(a, b):
    """tokens that would melt into one, or change meaning, without a separator"""
    sa, sb = a.k == "sym", b.k == "sym"
    qa, qb = a.s[0] in "'\"`", b.s[0] in "'\"`"
    if qa and qb:
        return a.s[-1] == b.s[0]
    if not sa and not sb and not qa and not qb:
        return True
    if a.s == "." and b.s[0].isdigit():
        return True
    if b.s == "." and a.s[-1].isdigit():
        return True
    return False


def plain(toks):
    out, prev = [], None
    for t in toks:
        if prev is not None:
            if needs_space(prev, t) or not (t.s in ("(", ")", ",", ".", ";") or prev.s in ("(", ".")):
                out.append(" ")
        out.append(t.s)
        prev = t
    return "".join(out)


def tight(toks):
    out, prev = [], None
    for t in toks:
        if prev is not None and needs_space(prev, t):
            out.append(" ")
        out.append(t.s)
        prev = t
    return "".join(out)


def lines(toks, nl="\n"):
    return nl.join(t.s for t in toks) + nl


def filler(rng, dialect, n=None):
    pool = FILL + (FILL_MY if dialect == "MySQL" else [])
    return "".join(rng.choice(pool) for _ in range(n or rng.choice([1, 1, 1, 2, 3])))


def loose(toks, rng, dialect, density=0.5, ends=True):
    """random separators; density: how often one is put where none is needed"""
    out, prev = [], None
    if ends and rng.random() < 0.3:
        out.append(filler(rng, dialect))
    for t in toks:
        if prev is not None:
            if needs_space(prev, t):
                if rng.random() < density:
                    f = filler(rng, dialect)
                    if prev.s[-1] in "-/*" or f[0] == "/" and prev.s[-1] in "*/":
                        f = " " + f
                    out.append(f)
                else:
                    out.append(" ")
            elif rng.random() < density:
                f = filler(rng, dialect)
                out.append(f if prev.s[-1] not in "-/*" else " " + f)
        out.append(t.s)
        prev = t
    if ends and rng.random() < 0.4:
        out.append(rng.choice(["\n", " ", "-- end", "/* end */", "\n\n", "\t", "--\n"]))
    return "".join(out)


def recase(toks, rng, mode):
    """change the letter case of keywords only"""
    from .gen import Tok
    out = []
    for t in toks:
        if t.k == "kw":
            s = t.s
            if mode == "lower":
                s = s.lower()
            elif mode == "title":
                s = s.capitalize()
            elif mode == "random":
                s = "".join(c.lower() if rng.random() < 0.5 else c.upper() for c in s)
            elif mode == "mixed":
                s = rng.choice([s, s.lower(), s.capitalize()])
            elif mode == "one":
                i = rng.randrange(len(s))
                s = s[:i] + s[i].swapcase() + s[i + 1:]
            out.append(Tok(s, t.k))
        else:
            out.append(t)
    return out
