"""Input spaces of the properties.

Each function returns a list of calls {"d": dialect, "s": text} and, for relational properties,
"base": indices of the calls to which the call is related.  `c` is the context: spec, rng, scale."""
import decimal
import itertools
import math
import random
import re

from . import layout
from .gen import (COMMON, DIALECTS, EXPRWORDS, Gen, IDQ, NUMS, ODD, OPS, PLAIN, SIZES, STRQ, SYMBOLS, Tok, kw, quote)


decimal.getcontext().prec = 200


class Ctx:
    def __init__(self, spec, seed, scale):
        self.spec, self.scale = spec, scale
        self.rng = random.Random(seed)
        self.gens = []

    def gen(self, d, **k):
        g = Gen(self.spec, d, self.rng, **k)
        self.gens.append(g)
        return g

    def n(self, k):
        return max(1, int(k * self.scale))


def call(d, s, **k):
    return dict(d=d, s=s, **k)


def typed(s, ty):
    """T stands for a column type of the dialect"""
    return re.sub(r"\bT\b", ty, s)


def cased(toks, rng, p=0.25):
    """now and then the keywords not in upper case"""
    return layout.recase(toks, rng, rng.choice(["lower", "lower", "title", "random", "one", "mixed"])) if rng.random() < p else toks


def style(toks, rng, d):
    toks = cased(toks, rng)
    r = rng.random()
    if r < 0.45:
        return layout.plain(toks)
    if r < 0.6:
        return layout.tight(toks)
    if r < 0.7:
        return layout.lines(toks)
    return layout.loose(toks, rng, d, density=rng.choice([0.1, 0.4, 0.8]))


# ---------------------------------------------------------------------------
# building blocks

def clause_variants(g, per=3):
    """for each column constraint alternative of the dialect, several clauses"""
    out = []
    for a in g.alternatives("colcons"):
        tag = next(s["n"] for s in a["r"] if s["k"] == "tag")
        seen, vs = set(), []
        for _ in range(per * 4):
            c = g.clause(a)
            key = tuple(t.s if t.k in ("kw", "sym") else t.k for t in c)
            if key not in seen:
                seen.add(key)
                vs.append(c)
            if len(vs) >= per:
                break
        out.append((tag, vs))
    return out


def tcons_variants(g, per=3):
    out = []
    alts = next(s for s in g.g["tcon"][0]["r"] if s["k"] == "alts" and len(s["a"]) > 2)["a"]
    for a in alts:
        vs = []
        for _ in range(per):
            vs.append(g.derive(a["r"], 12))
        out.append((a["w"][0], vs))
    return out


def named(g, con, name):
    return [kw("CONSTRAINT"), name] + con


def types(g, limit=None):
    """every data type with every size form"""
    out = []
    for a in g.g["type"]:
        first = a["r"][0]
        for w in first["w"]:
            forms = [[]]
            texts = str(a["r"])
            if "sizeN" in texts:
                forms.append([kw("("), g.size(), kw(")")])
            if "sizeM" in texts:
                forms.append([kw("("), g.size(), kw(","), g.size(), kw(")")])
            pre = [[kw(w)]]
            if "varying" in texts:
                pre.append([kw(w), kw("VARYING")])
            if w == "DOUBLE" and g.d == "PostgreSQL":
                pre = [[kw(w), kw("PRECISION")]]
            post = [[]]
            if "ZONE" in texts:
                post += [[kw("WITH"), kw("TIME"), kw("ZONE")], [kw("WITHOUT"), kw("TIME"), kw("ZONE")]]
            for p, f, q in itertools.product(pre, forms, post):
                out.append(p + f + q)
    return out


def type_clause(g, rng, share=1.0):
    """every type with every kind of clause behind it"""
    for ty in types(g):
        for _, vs in clause_variants(g, 2):
            if rng.random() < share:
                yield g.table([g.column([rng.choice(vs)], type_=ty)] + ([g.column()] if rng.random() < 0.5 else []))


def type_clauses(g, rng, limit):
    """types with two clauses behind them"""
    ts, cv = types(g), clause_variants(g, 4)
    ps = [(t, a, b) for t in range(len(ts)) for a in range(len(cv)) for b in range(len(cv)) if cv[a][0] != cv[b][0]]
    for t, a, b in some(rng, ps, limit):
        yield g.table([g.column([rng.choice(cv[a][1]), rng.choice(cv[b][1])], type_=ts[t])] + ([g.column()] if rng.random() < 0.5 else []))


def references(g, rng, limit):
    """references of every form, up to three actions behind them, and what follows"""
    acts = ["ON %s %s" % (w, a) for w in ("DELETE", "UPDATE") for a in ("CASCADE", "RESTRICT", "SET NULL", "SET DEFAULT", "NO ACTION")]
    acts += ["MATCH " + m for m in ("SIMPLE", "PARTIAL", "FULL")]
    if g.d == "SQLite":
        acts += ["DEFERRABLE", "NOT DEFERRABLE", "DEFERRABLE INITIALLY DEFERRED", "NOT DEFERRABLE INITIALLY IMMEDIATE"]
    acts = [[kw(x) for x in a.split()] for a in acts]
    for x in acts:
        for t in x:
            t.neutral = True
    cv = [(t, vs) for t, vs in clause_variants(g, 4) if t != "REFERENCES"]
    for _ in range(limit):
        r = [kw("REFERENCES")] + ([g.name(), kw(".")] if rng.random() < 0.5 else []) + [g.name()]
        cols = [] if rng.random() < 0.5 and g.d != "MySQL" else [kw("("), g.name(), kw(")")]
        k = rng.choice([0, 1, 2, 2, 2, 3])
        a = [rng.choice(acts) for _ in range(k)]
        if k == 2 and rng.random() < 0.5:
            a = [acts[i] for i in rng.choice([(0, 5), (1, 6), (2, 7), (3, 8), (4, 9), (5, 0), (6, 1), (7, 2), (8, 3), (9, 4)])]
        if g.d == "SQLite":     # DEFERRABLE is the last
            a.sort(key=lambda x: x[0].s in ("DEFERRABLE", "NOT"))
            while len(a) > 1 and a[-2][0].s in ("DEFERRABLE", "NOT"):
                a.pop()
        a = [t for x in a for t in x]
        if rng.random() < 0.7:
            after = [rng.choice(vs) for _, vs in rng.sample(cv, rng.choice([0, 1, 1, 1, 2]))]
            yield g.table([g.column([r + cols + a] + after)] + ([g.column()] if rng.random() < 0.3 else []))
        else:
            cols = [kw("("), g.name(), kw(",")] * (rng.random() < 0.3) or [kw("(")]
            f = [kw("FOREIGN"), kw("KEY")] + cols + [g.name(), kw(")")] + r + cols + [g.name(), kw(")")] + a
            if rng.random() < 0.4:
                f = named(g, f, g.name())
            yield g.table([g.column(), f] + ([rng.choice(rng.choice(tcons_variants(g, 1))[1])] if rng.random() < 0.5 else []))


def type_type(g, rng, limit):
    """every type behind every other, in the next column or two tables"""
    ts = types(g)
    ps = list(itertools.product(ts, ts))
    for a, b in some(rng, ps, limit):
        if rng.random() < 0.8:
            yield g.table([g.column(type_=a), g.column(type_=b)])
        else:
            yield g.table([g.column(type_=a)]) + g.table([g.column(type_=b)])


def vocabulary(c, d):
    g = c.gen(d)
    v = [kw(w) for w in c.spec.words[d]]
    v += [kw(s) for s in "(),.;="] * 3
    v += [Tok(n, "num") for n in NUMS + ["0", "-5", "1.5"]]
    v += [Tok("nm%d" % i, "name") for i in range(8)]
    v += [Tok(quote(x, q), "str") for x in ("s", "it's") for q in ("'\"" if d == "PostgreSQL" else "'\"`")]
    v += [Tok(x, "word") for x in ("+", "*", "-", "<", "1a", "a-b", "$x", "é", "ROWS", "SELECT", "FROM")]
    other = sorted(set().union(*[set(c.spec.words[e]) for e in DIALECTS if e != d]) - set(c.spec.words[d]))
    v += [kw(w) for w in other]
    return v


def mutate(toks, rng, vocab):
    """one token-level corruption"""
    t = list(toks)
    if not t:
        return [rng.choice(vocab)]
    i = rng.randrange(len(t))
    r = rng.random()
    if r < 0.22:
        del t[i]
    elif r < 0.40:
        t.insert(i, rng.choice(vocab))
    elif r < 0.62:
        t[i] = rng.choice(vocab)
    elif r < 0.72:
        t.insert(i, t[i])
    elif r < 0.82 and i + 1 < len(t):
        t[i], t[i + 1] = t[i + 1], t[i]
    elif r < 0.92:
        t = t[:i]
    else:
        j = rng.randrange(len(t))
        t[i] = t[j]
    return t


def edits(toks, rng, vocab):
    """a text with one edit at each place, of each kind"""
    t = list(toks)
    for i in range(len(t) + 1):
        for x in (",", "(", ")", ";"):
            yield t[:i] + [kw(x)] + t[i:]
        yield t[:i] + [rng.choice(vocab)] + t[i:]
        yield t[:i] + [Tok("nm", "name")] + t[i:]
        if i == len(t):
            break
        yield t[:i] + t[i + 1:]
        yield t[:i] + [t[i]] + t[i:]
        yield t[:i] + [rng.choice(vocab)] + t[i + 1:]
        yield t[:i] + [rng.choice([Tok("7", "num"), Tok("'s'", "str"), Tok("nm", "name"), kw("("), kw(")"), kw(",")])] + t[i + 1:]
        yield t[:i] + [kw("("), Tok("nm", "name"), kw(")")] + t[i:]
        yield t[:i] + [kw("("), Tok("nm", "name"), kw(")")] + t[i + 1:]
        if i + 1 < len(t):
            yield t[:i] + [t[i + 1], t[i]] + t[i + 2:]
            yield t[:i] + t[i + 2:]
        j = min(len(t), i + rng.randrange(2, 6))
        yield t[:i] + t[j:]                              # a span left out, repeated, moved
        yield t[:j] + t[i:j] + t[j:]
        k = min(len(t), j + rng.randrange(1, 5))
        yield t[:i] + t[j:k] + t[i:j] + t[k:]
        if t[i].k == "kw" and t[i].s[0].isalpha():
            w = t[i].s
            for v in (w + "S", w[:-1], w + "_", w + w[-1], w[1:], "X" + w, w + "1"):
                if v:
                    yield t[:i] + [Tok(v, "word")] + t[i + 1:]
            yield t[:i] + [Tok(rng.choice(['"%s"', "'%s'"]) % w, "str")] + t[i + 1:]


def corrupt(s, rng):
    """one character-level corruption"""
    if not s:
        return s
    i = rng.randrange(len(s))
    r = rng.random()
    c = rng.choice(list("()',;.\"`-/*#= \n\tab01_\\[]{}<>!?@$%^&+:~|") + ["　", "é", "\r", "--", "/*", "*/"])
    if r < 0.35:
        return s[:i] + s[i + 1:]
    if r < 0.7:
        return s[:i] + c + s[i:]
    if r < 0.9:
        return s[:i] + c + s[i + 1:]
    return s[:i]


def skeletons(g, n, budget=14):
    """short statements that together use every alternative"""
    for _ in range(n):
        yield g.statement(budget)


def covering(c, d, limit=400):
    """statements that together use every alternative and every keyword of the grammar"""
    g = c.gen(d, odd=0.1)
    g.greedy = 1.0
    out, vain = [], 0
    while len(out) < limit and vain < 400:
        before = len(g.used) + len(g.hits)
        t = g.statement(g.rng.choice([8, 24, 60])) if g.rng.random() < 0.7 else g.table([g.column()], g.nt("topts", 6))
        vain += 1
        if len(g.used) + len(g.hits) > before:
            out.append(t)
            vain = 0
    return out


def column_probe(g, cons, tail=None, head=None):
    """a table with one decorated column between two plain ones"""
    defs = [head or g.column(name=Tok("h", "name")), g.column(cons, name=Tok("mm", "name")),
            tail or g.column([[kw("NOT"), kw("NULL")]], name=Tok("z", "name"))]
    return g.table(defs, name=Tok("t", "name"))


# ---------------------------------------------------------------------------

def big_texts(c, d):
    """large but regular texts"""
    g = c.gen(d)
    ty = "TEXT" if d == "SQLite" else "INT"
    out = []
    for n in (130, 300, 520):
        cols = ", ".join("c%d %s%s" % (i, ty, " NOT NULL" if i % 3 == 0 else "") for i in range(n))
        out.append("CREATE TABLE wide (%s);" % cols)
    for n in (70, 150):
        out.append("\n".join("CREATE TABLE t%d (aa %s, b %s UNIQUE);" % (i, ty, ty) for i in range(n)))
    keys = ", ".join("k%d" % i for i in range(80))
    out.append("CREATE TABLE t (%s, PRIMARY KEY (%s), UNIQUE (%s));" % (
        ", ".join("k%d %s" % (i, ty) for i in range(80)), keys, keys))
    for n in (9, 17, 33, 70):
        ns = ", ".join("n%d" % i for i in range(n))
        out.append("CREATE TABLE t (aa %s, FOREIGN KEY (%s) REFERENCES r (%s), CONSTRAINT u UNIQUE (%s), CHECK (f(%s)));" % (ty, ns, ns, ns, ns))
    out.append("CREATE TABLE t (%s);" % ", ".join("n%d %s REFERENCES r%d (m%d) CHECK (n%d > %d) UNIQUE DEFAULT %d" % (i, ty, i, i, i, i, i) for i in range(60)))
    out.append("".join("CREATE TABLE s%d.t%d (n%d %s DEFAULT 'd%d', CONSTRAINT c%d UNIQUE (n%d));" % ((i, i, i, ty) + (i,) * 3) for i in range(70)))
    out.append("CREATE TABLE t (aa %s CHECK (%s));" % (ty, "(" * 150 + "x > 1" + ")" * 150))
    out.append("CREATE TABLE t (aa %s DEFAULT (%s));" % (ty, " + ".join("v%d" % i for i in range(200))))
    out.append("CREATE TABLE %s (%s %s);" % ("n" * 300, "m" * 300, ty))
    out.append("CREATE TABLE t (aa %s DEFAULT '%s');" % (ty, "lorem ipsum " * 60))
    out.append("/* %s */CREATE TABLE t (aa %s);-- %s" % ("x\n" * 300, ty, "y" * 300))
    out.append("\n" * 400 + "CREATE TABLE t (aa %s);" % ty)
    q = IDQ[d][0]
    out.append("CREATE TABLE %s (aa %s);" % (quote("w x" * 100, q), ty))
    out.append("".join("CREATE VIEW v%d AS SELECT %d;\n" % (i, i) for i in range(60)) + "CREATE TABLE t (aa %s);" % ty)
    uni = ", ".join("UNIQUE (kk%d)" % i for i in range(40))
    fks = ", ".join("CONSTRAINT f%d FOREIGN KEY (aa) REFERENCES r%d (b)" % (i, i) for i in range(40))
    chk = ", ".join("CHECK (aa > %d)" % i for i in range(40))
    out.append("CREATE TABLE t (aa %s, %s, %s, %s);" % (ty, uni, fks, chk))
    return out


def large(c, prop, per):
    """texts far beyond ordinary sizes, per of them for each dialect: every kind of repetition, thousands of times"""
    rng, out = c.rng, []
    wrongs = prop in ("P01", "P03", "P04", "P10", "P11", "P12", "P13", "P15")
    for d in DIALECTS:
        g = c.gen(d)
        ty = "TEXT" if d == "SQLite" else "INT"
        q, sq = IDQ[d][0], STRQ[d][0]
        n = rng.choice([1030, 1500, 2100, 2600])
        h, k = n // 4, n * 3 // 2
        ns = ", ".join("k%d" % i for i in range(k))

        def cols(m, f):
            return "CREATE TABLE t (%s);" % ", ".join(f(i) for i in range(m))

        def clauses():
            some_ = [layout.plain(x) for _, xs in clause_variants(g, 2) for x in xs]
            return cols(h, lambda i: "c%d %s %s" % (i, ty, rng.choice(some_)))

        def constraints():
            some_ = [layout.plain(x) for _, xs in tcons_variants(g, 2) for x in xs]
            return "CREATE TABLE t (aa %s, %s);" % (ty, ", ".join(rng.choice(some_) for _ in range(h)))

        def statements():
            return "\n".join(style(t, rng, d) + ("" if t[-1].s == ";" else ";") for t in skeletons(g, h // 2, 12))

        shapes = [
            lambda: cols(k, lambda i: "c%d %s" % (i, ty)),
            lambda: cols(k, lambda i: "cc %s\n" % ty),
            lambda: cols(h, lambda i: "c%d %s NOT NULL UNIQUE DEFAULT %d CHECK (c%d > %d)" % (i, ty, i, i, i)),
            lambda: cols(h, lambda i: "c%d %s CONSTRAINT n%d REFERENCES r%d (m%d)" % (i, ty, i, i, i)),
            lambda: cols(h, lambda i: quote("c %d" % i, q) + " %s DEFAULT %s" % (ty, quote("v %d" % i, sq))),
            clauses, constraints, statements,
            lambda: "".join("CREATE TABLE IF NOT EXISTS s%d.t%d (c%d %s);\n" % (i, i, i, ty) for i in range(n // 3)),
            lambda: "".join("CREATE VIEW v%d AS SELECT %d;\n" % (i, i) for i in range(n // 2)) + "CREATE TABLE t (aa %s);" % ty,
            lambda: "CREATE TABLE t (aa %s, PRIMARY KEY (%s));" % (ty, ns),
            lambda: "CREATE TABLE t (aa %s, CONSTRAINT u UNIQUE (%s));" % (ty, ns),
            lambda: "CREATE TABLE t (aa %s, FOREIGN KEY (%s) REFERENCES r (%s));" % (ty, ns[:len(ns) // 2].rpartition(",")[0], ns),
            lambda: "CREATE TABLE t (aa %s, %s);" % (ty, ", ".join("CONSTRAINT u%d UNIQUE (aa, b%d)" % (i, i) for i in range(h))),
            lambda: "CREATE TABLE t (aa %s, %s);" % (ty, ", ".join("CONSTRAINT f%d FOREIGN KEY (aa) REFERENCES r%d (b)" % (i, i) for i in range(h))),
            lambda: "CREATE TABLE t (aa %s, %s);" % (ty, ", ".join("CHECK (aa > %d)" % i for i in range(h))),
            lambda: "CREATE TABLE t (aa %s DEFAULT (%s));" % (ty, " + ".join("v%d w" % i for i in range(h))),
            lambda: "CREATE TABLE t (aa %s CHECK (%s) NOT NULL);" % (ty, "(" * k + "x > 1" + ")" * k),
            lambda: "CREATE TABLE t (aa %s CHECK (%s) NOT NULL, CHECK (%s));" % (ty, "(x) " * h, "f(y), " * h),
            lambda: "CREATE TABLE %s.%s (%s %s DEFAULT %s);" % ("s" * k, "t" * k, "c" * k, ty, quote("v" * k, sq)),
            lambda: "CREATE TABLE %s (%s %s DEFAULT %s);" % (quote("t " * k, q), quote("c" + q, q) * 1, ty, quote("it" + sq, sq)),
            lambda: "CREATE TABLE t (aa %s DEFAULT %s);" % (ty, quote(("lorem\n" + sq) * n, sq)),
            lambda: "CREATE TABLE t /* %s */ (aa %s -- %s\n);" % ("x\n" * k, ty, "y -- " * k),
            lambda: "\n" * (2 * k) + "CREATE TABLE t (aa %s%s);" % (" \n" * k, ty),
            lambda: "CREATE TABLE t (aa %s);" % ty + "/**/" * k + "--x\n" * k,
            lambda: "CREATE TABLE t (aa %s REFERENCES r (b) %s);" % (ty, "ON DELETE CASCADE ON UPDATE SET NULL " * h)
            if d != "MySQL" else "CREATE TABLE t (aa INT)%s;" % (" ENGINE = x" * h),
            lambda: "CREATE TRIGGER x BEGIN " + "UPDATE t SET a = 1; " * h + "END;\nCREATE TABLE t (aa %s);" % ty,
            lambda: "CREATE TABLE t (aa %s DEFAULT %s);" % (ty, "1" * 290 + "." + "3" * n),
        ]
        rng.shuffle(shapes)
        for f in shapes[:per]:
            s = f()
            if wrongs and rng.random() < 0.5:
                i = rng.choice([len(s) - 1, len(s) - 2, len(s) - len(s) // 7])
                s = s[:i] + rng.choice([" ) ", "", ", ,", " 'x", " zz ", "\n"]) + s[i + rng.choice([0, 0, 1]):]
            out.append(call(d, s))
    return out


def huge_texts(d):
    ty = "TEXT" if d == "SQLite" else "INT"
    q = IDQ[d][0]
    return [
        "CREATE TABLE t (aa %s CHECK (%s" % (ty, "(" * 200000),
        "CREATE TABLE t (aa %s CHECK (%s));" % (ty, "(" * 100000 + ")" * 100000),
        "CREATE TABLE t (aa %s CHECK (%s));" % (ty, "(x)" * 60000),
        "CREATE TABLE t (%s);" % ", ".join("c%d %s" % (i, ty) for i in range(15000)),
        "CREATE TABLE t (aa %s);\n" % ty * 6000,
        "CREATE VIEW v AS SELECT 1;\n" * 15000,
        "CREATE TABLE t (aa %s DEFAULT '%s');" % (ty, "x" * 60000),
        "CREATE TABLE t (aa %s DEFAULT '%s" % (ty, "x" * 60000),
        "/*" + "*" * 100000, "/*" + "/*" * 50000 + "*/", "-" * 100000, "-- " + "x" * 100000,
        "\n" * 100000, " " * 100000, "'" * 50001, "(" * 100000, ")" * 100000, ";" * 100000, "." * 100000,
        "," * 100000, "*" * 50000, "CREATE " * 30000, "CREATE TABLE " + "." * 50000,
        "CREATE TABLE t (aa %s, PRIMARY KEY (%s));" % (ty, ", ".join("k%d" % i for i in range(15000))),
        "CREATE TABLE t (aa %s, UNIQUE (%s" % (ty, ", ".join("k%d" % i for i in range(15000))),
        "CREATE TABLE %s (aa %s);" % (q + "n" * 50000 + q, ty),
        "CREATE TRIGGER x BEGIN " + "SELECT 1; " * 15000,
        "CREATE TRIGGER x BEGIN " + "SELECT 1; " * 15000 + "END;",
        "CREATE TABLE t (aa %s REFERENCES r %s);" % (ty, "ON DELETE CASCADE " * 10000),
        "CREATE TABLE t (aa %s)%s;" % (ty, " TABLESPACE x" * 10000),
    ]


# ---------------------------------------------------------------------------
# P01  every call returns

def P01(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d)
        vocab = vocabulary(c, d)
        base = []
        for t in skeletons(g, c.n(40)):
            s = style(t, rng, d)
            base.append(s)
            for i in range(0, len(s) + 1, 1 if len(s) < 120 else 3):       # truncation at every character
                out.append(call(d, s[:i]))
        for t in skeletons(g, c.n(250)):
            s = style(t, rng, d)
            for _ in range(4):
                out.append(call(d, corrupt(s, rng)))
            for _ in range(3):
                out.append(call(d, style(mutate(t, rng, vocab), rng, d)))
            u = mutate(mutate(mutate(t, rng, vocab), rng, vocab), rng, vocab) if len(t) > 3 else t
            if u:
                out.append(call(d, corrupt(style(u, rng, d), rng)))
        # token soup, also behind a valid opening
        for _ in range(c.n(700)):
            k = rng.randrange(0, 9)
            soup = [rng.choice(vocab) for _ in range(k)]
            head = rng.choice(["", "CREATE ", "CREATE TABLE ", "CREATE TABLE t (", "CREATE TABLE t (aa TEXT ",
                               "CREATE TABLE t (aa TEXT, ", "CREATE TABLE t (aa TEXT) ", "CREATE VIEW ",
                               "CREATE TABLE t (aa TEXT DEFAULT ", "CREATE TABLE t (aa TEXT CHECK (",
                               "CREATE TABLE t (aa TEXT REFERENCES ", "CREATE TABLE t (aa VARCHAR("])
            out.append(call(d, head + layout.plain(soup) if soup else head))
        # all short strings over characters with a lexical meaning
        alpha = ["a", "1", "'", '"', "`", "-", "/", "*", "#", "\n", " ", "(", ")", ";", ".", "=", "　"]
        for k in (1, 2):
            for x in itertools.product(alpha, repeat=k):
                out.append(call(d, "".join(x)))
        for x in itertools.product(alpha, repeat=3):
            if c.scale >= 4 or rng.random() < 0.25:
                out.append(call(d, "".join(x)))
        for s in big_texts(c, d):
            out.append(call(d, s))
            out.append(call(d, s[:len(s) // 2]))
        for s in ["", "\n", ";", "CREATE", "create table", "\ufeffCREATE TABLE t (aa TEXT);", "\0", "a\0b",
                  "CREATE TABLE t (aa TEXT) \x0c;", "<EOF>", "CREATE <EOF>", "CREATE TABLE <EOF> (aa TEXT);"]:
            out.append(call(d, s))
            out.append(call("Force", s))
        # bytes that are not UTF-8
        for t in skeletons(g, c.n(120), 12):
            b = bytearray(style(t, rng, d).encode("utf-8"))
            for _ in range(rng.choice([1, 1, 2, 5])):
                i = rng.randrange(len(b) + 1)
                junk = rng.choice([b"\xff", b"\x80", b"\xc3", b"\xe3\x80", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xe3\x80\x80", b"\xef\xbf\xbd"])
                b[i:i + rng.choice([0, 0, 1])] = junk
            out.append(call(d, bytes(b).decode("utf-8", "surrogateescape")))
        for t in skeletons(g, c.n(20), 12):
            b = layout.plain(t).replace("a", "日").encode("utf-8")
            i = rng.randrange(len(b))
            out.append(call(d, b[:i].decode("utf-8", "surrogateescape")))
    for _ in range(c.n(60)):
        x = rng.choice(out)
        out.append(call("Force", x["s"]))
    return [x for x in out if len(x["s"]) < 30000]


def P01_huge(c):
    return [call(d, s) for d in DIALECTS for s in huge_texts(d)]


# P02  the documented grammar is accepted

def pairs(g, rng, per=2, limit=None):
    """every ordered pair of column constraint kinds, with option variants"""
    cv = clause_variants(g, per)
    for (ta, va), (tb, vb) in itertools.permutations(cv, 2):
        if ta != tb:
            yield column_probe(g, [rng.choice(va), rng.choice(vb)])


def P02(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d)
        for t in g.sentences(c.n(900)):
            out.append(call(d, style(t, rng, d)))
        for t in skeletons(g, c.n(1200)):
            out.append(call(d, style(t, rng, d)))
        for t in pairs(g, rng):
            out.append(call(d, layout.plain(t)))
        for cons in combos(g, rng, 3, c.n(4000)):
            out.append(call(d, layout.plain(g.table([g.column(cons)]))))
        for ty in types(g):
            out.append(call(d, layout.plain(g.table([g.column(type_=ty)]))))
        for t in itertools.chain(type_clause(g, rng), type_type(g, rng, c.n(300))):
            out.append(call(d, layout.plain(t)))
        kinds = tcons_variants(g, 2)
        for (_, va), (_, vb) in itertools.product(kinds, repeat=2):
            defs = [g.column(), rng.choice(va), rng.choice(vb)]
            rng.shuffle(defs)
            out.append(call(d, layout.plain(g.table(defs))))
        for w in [w for s in g.g["ddl"][0]["r"][-1]["a"][-1]["r"][:1] for w in s["w"]]:
            for _ in range(2):
                other = [kw("CREATE"), kw(w)] + g.body()
                out.append(call(d, style(other + g.statement(8), rng, d)))
        if d != "SQLite":
            for a in g.g["topt"]:
                for _ in range(3):
                    for comma in ([], [kw(",")]):
                        o1, o2 = g.derive(a["r"], 10), g.nt("topt", 10)
                        out.append(call(d, layout.plain(g.table([g.column()], comma + o1 + comma + o2))))
        for t in references(g, rng, c.n(1000)):
            out.append(call(d, layout.plain(t)))
        for s in big_texts(c, d):
            out.append(call(d, s))
        # names: words that are reserved elsewhere, or nearly
        ty, res = "TEXT" if d == "SQLite" else "INT", set(c.spec.reserved[d])
        for w in sorted(set().union(*c.spec.reserved.values()) | set(x for e in DIALECTS for x in c.spec.words[e] if x.isidentifier())):
            for n in (w, w + rng.choice(["S", "_", "1", "Q"]), rng.choice([w[:-1], w[1:], "_" + w, w.replace("_", ""), w + w[-1]])):
                if n and n.isidentifier() and n not in res:
                    out.append(call(d, typed(rng.choice(NAMED), ty).replace("NAME", rng.choice([n, n.lower(), n.capitalize()]))))
    return out


# P03 / P04  rejection and its place

# words of SQL that belong to none of the dialects' grammars here, or to few places of them
FOREIGN = set("""TINYTEXT MEDIUMTEXT LONGTEXT TINYBLOB MEDIUMBLOB LONGBLOB ENUM SET NCHAR NVARCHAR VARCHAR2 NUMBER CLOB INT2 INT4 INT8 UNSIGNED ZEROFILL SIGNED FIXED DEC
 STRING VARBIT BPCHAR NAME OID HSTORE ANY ANYELEMENT VOID RECORD ROWVERSION DATETIME2 SMALLDATETIME DATETIMEOFFSET UNIQUEIDENTIFIER BOOL BOOLEAN DATE TIMETZ TIMESTAMPTZ
 INT4RANGE INT8RANGE NUMRANGE TSRANGE DATERANGE REGCLASS SMALLMONEY IDENTITY SPARSE ROWGUIDCOL CLUSTERED NONCLUSTERED INHERITS PARTITION PARTITIONS LIKE OF EXCLUDE INCLUDING
 EXCLUDING TYPE ENCODE DISTKEY SORTKEY INVISIBLE VISIBLE STORAGE COMPRESSION ENABLE DISABLE VALIDATE NOVALIDATE RELY USING ENGINE CHARSET OPTIONS SERVER OWNER OIDS ROWID STRICT
 TEMP TEMPORARY UNLOGGED GLOBAL LOCAL EXTERNAL VIRTUAL MATERIALIZED RECURSIVE COLUMN_FORMAT FIRST AFTER INDEX KEY FULLTEXT SPATIAL SRID REPLACE IGNORE AS SELECT VALUES WITH
 OIDS ACTION CASCADED RESTRICTED NULLS DISTINCT NO VALID INHERIT PERIOD SYSTEM_TIME VERSIONING COMPRESSED AUTOEXTEND_SIZE SECONDARY_ENGINE""".split())


NAMED = ["CREATE TABLE NAME (aa T);", "CREATE TABLE s.NAME (aa T);", "CREATE TABLE NAME.t (aa T);", "CREATE TABLE t (NAME T);", "CREATE TABLE t (aa T, NAME T, b T);",
         "CREATE TABLE t (aa T CONSTRAINT NAME UNIQUE);", "CREATE TABLE t (aa T REFERENCES NAME);", "CREATE TABLE t (aa T REFERENCES r (NAME));",
         "CREATE TABLE t (aa T, CONSTRAINT NAME CHECK (aa));", "CREATE TABLE t (aa T, PRIMARY KEY (NAME, aa));", "CREATE TABLE t (aa T, UNIQUE (aa, NAME));",
         "CREATE TABLE t (aa T, FOREIGN KEY (NAME) REFERENCES r (x));", "CREATE TABLE t (aa T, FOREIGN KEY (aa) REFERENCES NAME (x));"]


def wrong(c, layouts):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.08)
        vocab = vocabulary(c, d)

        def add(t):
            out.append(call(d, layouts(t, rng, d)))
        # systematic: every position of short statements, deletion, truncation, duplication
        for t in skeletons(g, c.n(70), 10):
            for i in range(len(t)):
                add(t[:i] + t[i + 1:])
                add(t[:i])
                add(t[:i] + [rng.choice(vocab)] + t[i:])
                add(t[:i] + [rng.choice(vocab)] + t[i + 1:])
        for t in skeletons(g, c.n(900)):
            add(mutate(t, rng, vocab))
            if rng.random() < 0.3:
                add(mutate(mutate(t, rng, vocab) or t, rng, vocab))
        # every kind of edit at every place of texts that together use the whole grammar
        es = []
        for t in covering(c, d):
            if len(t) < 80:
                es += edits(t, rng, vocab)
        for t in some(rng, es, c.n(7000)):
            if t:
                add(t)
        # what follows each kind of clause, definition and option
        after = [x.split() for x in (",", ", ,", ", )", ")", ") )", ", 5", ", 's'", "x1", "x1 x2", "5", "'s'", "( x1 )", "( )", "(", ". x1", "= 1", ", x1", ", x1 )", "NOT",
                                     "NOT NULL NULL", ", CONSTRAINT x1", ", CONSTRAINT", "CONSTRAINT", ", CHECK", ", UNIQUE", ", PRIMARY KEY", ", FOREIGN KEY ( x1 )", ";", "; )",
                                     ", NOT NULL", ", DEFAULT 1", "DEFAULT", "+", "ON DELETE", "ON", "ASC", ", TABLE", "END", "BEGIN", "ENFORCED", "WITH", "USING", "KEY", "COMMENT", "AS")]
        after = [[kw(y) if y.isupper() or not y[0].isalnum() and y[0] != "'" else Tok(y, "name" if y[0] == "x" else "num" if y == "5" else "str") for y in x] for x in after]

        def spoilt(x):
            return x + rng.choice(after) if rng.random() < 0.85 else x[:-1] + rng.choice(after)
        for _, vs in clause_variants(g, 3):
            for v in vs:
                for a in after:
                    add(column_probe(g, [v + a], tail=g.column(name=Tok("z", "name"))) if rng.random() < 0.5 else g.table([g.column([v + a])]))
        for _, vs in tcons_variants(g, 5):
            for v in vs:
                for a in after:
                    add(g.table([g.column(), v + a]) if rng.random() < 0.6 else g.table([g.column(), v + a, g.column()]))
        for ty in types(g):
            for a in some(rng, after, c.n(6)):
                add(g.table([g.column(type_=ty + a)]))
        if d != "SQLite":
            for a in g.g["topt"]:
                for _ in range(2):
                    o = g.derive(a["r"], 10)
                    for x in after:
                        add(g.table([g.column()], o + x))
                        if rng.random() < 0.4:
                            add(g.table([g.column()], spoilt(o) + g.nt("topt", 8)))
        # duplicates of each constraint kind, with another in between
        cv = clause_variants(g, 2)
        for ta, va in cv:
            for tb, vb in [(None, None)] + cv:
                for tc, vc in cv:
                    if ta == tc:
                        cons = [rng.choice(va)] + ([rng.choice(vb)] if vb else []) + [rng.choice(vc)]
                        add(column_probe(g, cons))
        for ta, va in cv:
            for n in range(2, len(cv)):
                for _ in range(c.n(2)):
                    tags, mid = {ta}, []
                    for tb, vb in rng.sample(cv, len(cv)):
                        if tb not in tags and len(mid) < n:
                            tags.add(tb)
                            mid.append(rng.choice(vb))
                    cons = [rng.choice(va)] + mid + [rng.choice(va)]
                    if rng.random() < 0.3:
                        i = rng.randrange(len(cons) - 1)
                        cons[0], cons[i] = cons[i], cons[0]
                    add(column_probe(g, cons))
        # every part of a clause, constraint or option twice
        parts = [(0, v) for _, vs in clause_variants(g, 5) for v in vs] + [(1, v) for _, vs in tcons_variants(g, 4) for v in vs]
        if d != "SQLite":
            parts += [(2, g.derive(a["r"], 10)) for a in g.g["topt"] for _ in range(2)]
        for kind, v in parts:
            for i in range(len(v)):
                for j in range(i + 2, min(len(v), i + 6) + 1):
                    x = v[:j] + v[i:]
                    add(g.table([g.column([x])]) if kind == 0 else g.table([g.column(), x]) if kind == 1 else g.table([g.column()], x))
        # operands of the wrong kind
        bad = ["0", "-1", "-0", "00", "1.5", "1e3", "'5'", "x", "", "9223372036854775808", "99999999999999999999",
               "+", "1_000", "0x10", "５"]
        for ty in types(g):
            if any(t.k == "num" for t in ty):
                for b in rng.sample(bad, 4):
                    ts = [Tok(b, "num") if t.k == "num" else t for t in ty if not (t.k == "num" and b == "")]
                    if ts:
                        add(g.table([g.column(type_=ts)]))
        # every operand of a clause, constraint or option in every other spelling
        forms = ["0", "1", "00", "01", "10", "2", "+0", "+1", "-0", "-1", "1.0", "0.0", "0.5", "1e0", "1E1", "1.", ".1", "0x1", "1a", "1_0", "'1'", '"1"', "''", "'s'",
                 "x1", "NULL", "TRUE", "FALSE", "ON", "DEFAULT", "CURRENT_DATE", "NO", "1 1", "( 1 )", "- 1", "( )", "x1 . x2", "= 1", "= = 1", ", 1"]
        for kind, v in parts:
            for i, x in enumerate(v):
                if x.k in ("num", "str") or x.s in ("0", "1", "NULL", "TRUE", "DEFAULT"):
                    for f in some(rng, forms, c.n(12)) if kind < 2 else forms:
                        y = v[:i] + [Tok(z, "num" if z[0] in "01" else "str" if z[0] in "'\"" else "kw" if z.isupper() else "word") for z in f.split()] + v[i + 1:]
                        add(g.table([g.column([y])]) if kind == 0 else g.table([g.column(), y]) if kind == 1 else g.table([g.column()], y))
        # types: near misses and sizes where none are allowed
        for ty in types(g):
            w = ty[0].s
            for v in (w + "X", w[:-1], w + "_", "X" + w, w + "S", w + w[-1], w + "0", w[1:], w[:len(w) // 2], w + "(", w.replace("INT", "NUM")):
                if v and v != w:
                    add(g.table([g.column(type_=[Tok(v, "word")] + ty[1:])]))
            add(g.table([g.column(type_=ty + [kw("("), Tok("3", "num"), kw(")")])]))
            add(g.table([g.column(type_=ty[:1] + [kw("("), Tok("3", "num"), kw(","), Tok("2", "num"), kw(")")])]))
            add(g.table([g.column(type_=ty[:1] + [kw("("), kw(")")])]))
        # words that are no types of the dialect, or no types at all
        words = set().union(*c.spec.reserved.values()) | set(w for e in DIALECTS for w in c.spec.words[e] if w.isidentifier()) | FOREIGN
        for w in sorted(words):
            add(g.table([g.column(type_=[Tok(w, "word")])]))
            for x in "S", rng.choice(["X", "2", "_T", w[-1]]):
                add(g.table([g.column(type_=[Tok(w + x, "word")])]))
                add(g.table([g.column(type_=[Tok(w + x, "word"), kw("("), Tok("3", "num"), kw(")")])]))
            add(column_probe(g, [[Tok(w, "word")] + rng.choice([[], [Tok("x1", "name")], [kw("("), Tok("x1", "name"), kw(")")], [Tok("'s'", "str")], [Tok("5", "num")]])]))
            add(g.table([g.column(), [Tok(w, "word")] + rng.choice([[], [Tok("x1", "name")], [kw("("), Tok("x1", "name"), kw(")")], [Tok("x1", "name"), kw("("), Tok("x2", "name"), kw(")")]])]))
            add(g.table([g.column()], [Tok(w, "word")] + rng.choice([[], [Tok("x1", "name")], [kw("="), Tok("x1", "name")], [kw("("), Tok("x1", "name"), kw(")")], [Tok("5", "num")]])))
        # keywords misspelt
        for t in skeletons(g, c.n(350), 12):
            ks = [i for i, x in enumerate(t) if x.k == "kw"]
            i = rng.choice(ks)
            w = t[i].s
            v = rng.choice([w + "S", w[:-1], w[1:], w + "_", w[0] + w, w.replace("_", "") + "0", '"%s"' % w, "'%s'" % w])
            if v:
                add(t[:i] + [Tok(v, "str" if v[0] in "'\"" else "word")] + t[i + 1:])
        # letters that only look like (or fold to) the letters of a keyword
        for t in covering(c, d)[:60]:
            ks = [i for i, x in enumerate(t) if x.k == "kw" and set(x.s) & set("ISK")]
            for i in rng.sample(ks, min(len(ks), 3)):
                a, b = rng.choice([x for x in (("I", "ı"), ("I", "İ"), ("S", "ſ"), ("K", "K"), ("S", "ｓ")) if x[0] in t[i].s])
                add(t[:i] + [Tok(t[i].s.replace(a, b, 1), "word")] + t[i + 1:])
        # syntax of another dialect
        for e in DIALECTS:
            if e != d:
                h = c.gen(e, odd=0.05)
                for t in skeletons(h, c.n(120), 12):
                    add(t)
                for _, vs in clause_variants(h, 2) + tcons_variants(h, 1):
                    for x in vs:
                        add(column_probe(g, [x]))
                        add(g.table([g.column(), x]))
                if e != "SQLite":
                    for a in h.g["topt"]:
                        add(g.table([g.column()], h.derive(a["r"], 8)))
        # reserved words as names
        ty = "TEXT" if d == "SQLite" else "INT"
        for w in c.spec.reserved[d]:
            for p in some(rng, NAMED, 2):
                out.append(call(d, typed(p, ty).replace("NAME", rng.choice([w, w.lower(), w.capitalize()]))))
        # a wrong statement among correct ones
        for _ in range(c.n(120)):
            ss = [g.statement(6) for _ in range(rng.choice([2, 3]))]
            k = rng.randrange(len(ss))
            ss[k] = mutate(ss[k], rng, vocab)
            add([x for s in ss for x in s] or g.statement(4))
        # statement kinds
        for w in sorted(set(c.spec.words[d]) | {"SELECT", "OR", "UNLOGGED", "LOCAL", "GLOBAL", "OR REPLACE", "DEFINER"}):
            add([kw("CREATE"), kw(w), Tok("x", "name"), kw("AS"), kw("("), kw(")"), kw(";")])
        for w in ("DROP", "ALTER", "INSERT", "UPDATE", "SELECT", "CREATED", "CREAT", "EXPLAIN", "BEGIN", "COMMIT", ";"):
            add([kw(w), kw("TABLE"), Tok("x", "name"), kw(";")])
            add(g.statement(4) + [kw(w), kw("TABLE"), Tok("x", "name"), kw(";")])
        # lexical errors
        for t in skeletons(g, c.n(60), 8):
            s = layout.plain(t)
            for x in ("'", '"', "`", "/*", "*/", "　", "--", "#"):
                i = rng.randrange(len(s) + 1)
                out.append(call(d, s[:i] + x + s[i:]))
            for _ in range(4):
                out.append(call(d, corrupt(layouts(t, rng, d), rng)))
        # an empty list of any kind
        ty = "TEXT" if d == "SQLite" else "INT"
        for s in ("CREATE TABLE t ();", "CREATE TABLE t (,aa T);", "CREATE TABLE t (aa T,);", "CREATE TABLE t (aa T,,b T);",
                  "CREATE TABLE t (aa T, PRIMARY KEY ());", "CREATE TABLE t (aa T, UNIQUE (aa,));", "CREATE TABLE t (aa T) (b T);",
                  "CREATE TABLE t aa T;", "CREATE TABLE t (aa T));", "CREATE TABLE t ((aa T);", "CREATE TABLE t (aa T);;",
                  "CREATE TABLE t (aa T CHECK ());", "CREATE TABLE t (aa T CHECK (());", "CREATE TABLE t (aa T CHECK ()));",
                  "CREATE TABLE aa.b.cc (aa T);", "CREATE TABLE .aa (aa T);", "CREATE TABLE aa. (aa T);", "CREATE TABLE (aa T);",
                  "CREATE TABLE IF EXISTS t (aa T);", "CREATE TABLE IF NOT t (aa T);", "CREATE TABLE NOT EXISTS t (aa T);",
                  "CREATE TABLE t (aa T) ", "CREATE TABLE t (aa)", "CREATE TABLE t (aa T b T);", "CREATE TABLE t (T);",
                  "CREATE TABLE t (aa T DEFAULT);", "CREATE TABLE t (aa T DEFAULT x);", "CREATE TABLE t (aa T DEFAULT 1 2);",
                  "CREATE TABLE t (aa T NOT);", "CREATE TABLE t (aa T PRIMARY);", "CREATE TABLE t (aa T REFERENCES);",
                  "CREATE TABLE t (aa T REFERENCES r (x, y));", "CREATE TABLE t (aa T REFERENCES r ());",
                  "CREATE TABLE t (aa T, CONSTRAINT cc);", "CREATE TABLE t (aa T, CONSTRAINT cc b T);",
                  "CREATE TABLE t (aa T, FOREIGN KEY (aa));", "CREATE TABLE t (aa T, FOREIGN KEY (aa) REFERENCES);",
                  "CREATE TABLE t (aa T, PRIMARY (aa));", "CREATE TABLE t (aa T, CHECK aa > 1);", "CREATE VIEW v",
                  "CREATE TRIGGER x BEGIN SELECT 1;", "CREATE TABLE t (aa T) CREATE TABLE u (aa T);"):
            out.append(call(d, typed(s, ty)))
            out.append(call(d, "CREATE TABLE ok (aa %s);\n" % ty + typed(s, ty)))
    return out


def P03(c):
    return wrong(c, lambda t, rng, d: layout.plain(cased(t, rng)) if rng.random() < 0.7 else style(t, rng, d))


def again(t, junk, rng):
    """the text with something wrong at its end"""
    r, k = rng.random(), rng.randrange(1, 4)
    if r < 0.3:
        return t[:-k]
    if r < 0.6:
        return t[:-1] + [rng.choice(junk)] + t[-1:]
    if r < 0.8:
        return t[:-k] + [rng.choice(junk)] + t[-k:]
    return t + [rng.choice(junk)]


def P04(c):
    def lay(t, rng, d):
        t = cased(t, rng, 0.4)
        if len(t) > 3 and rng.random() < 0.35:      # something wrong behind the first error, too
            t = again(t, [Tok(x, "word") for x in ("x9", "9", ")", ",", "ON")], rng)
        r = rng.random()
        if r < 0.25:
            return layout.lines(t, rng.choice(["\n", "\r\n", "\n\n", " \n\t"]))
        if r < 0.35:
            return "\n" * rng.randrange(1, 4) + layout.plain(t)
        if r < 0.45:
            return layout.plain(t)
        return layout.loose(t, rng, d, density=rng.choice([0.2, 0.6]))
    out = wrong(c, lay)
    rng = c.rng
    # the same error behind prefixes of many shapes
    for d in DIALECTS:
        ty = "TEXT" if d == "SQLite" else "INT"
        q = IDQ[d]
        pre = ["", "\n", "\n\n\n", "-- c\n", "/* a\nb\nc */", "\r\n\r\n", "/* x */\n-- y\n", "\t\n \n",
               "CREATE TABLE p (aa %s);\n" % ty, "CREATE TABLE %s (aa %s);" % (quote("l1\nl2", q[0]), ty),
               "CREATE TABLE p (aa %s DEFAULT 'x\ny\n\nz');" % ty, "CREATE VIEW v AS\nSELECT 'a\nb'\n;\n",
               "CREATE TABLE p (aa %s CHECK (\nx\n>\n1\n));" % ty, "CREATE TRIGGER gg BEGIN\nSELECT 1;\nEND;\n",
               "CREATE TABLE p (\n\n-- cc\naa %s /* \n\n */\n)\n;" % ty, "\n" * 257, "--\n" * 120, "\n" * 1027, "\r\n" * 600, "/*" + "\n" * 300 + "*/" + "\n" * 300,
               "CREATE TABLE p (aa %s);\n" % ty * 130, "CREATE VIEW v AS SELECT 1;\n\n" * 140]
        if d == "MySQL":
            pre += ["# c\n", "CREATE TABLE p (aa INT, INDEX i (\naa\n)\nCOMMENT 'a\nb'\n);", "# a\n# b\n\n"]
        if d == "PostgreSQL":
            pre += ["CREATE TABLE p (aa INT, EXCLUDE (\naa\n)\n);\n", "CREATE TABLE p (aa INT) WITH (\nx\n);"]
        errs = ["x", ")", "CREATE TABLE t (aa\n%s\nx);" % ty, "CREATE TABLE t (aa %s,\n\n'str\ning' %s);" % (ty, ty),
                "CREATE TABLE t (aa %s) 5;" % ty, "CREATE TABLE t (\naa %s NOT\n\nNUL);" % ty, "CREATE", "CREATE TABLE t (",
                "CREATE TABLE t (aa %s CHECK (1\n" % ty, "'abc\n", "/* abc\n\n", "a */ b", "　", "CREATE VIEW v\n\n",
                "CREATE TABLE t (aa %s DEFAULT\n\"\n\n" % ty, "CREATE TABLE t (aa %s UNIQUE\nUNIQUE);" % ty,
                "CREATE TABLE t (aa %s REFERENCES\nr\nON\nx);" % ty, "CREATE TABLE t (aa %s -- cc\n -- d\n x);" % ty]
        for p in pre:
            for e in errs:
                for post in ("", "\n", "\n\n", " -- z"):
                    if post == "" or rng.random() < 0.5:
                        out.append(call(d, p + e + post))
    return out


# P05  one table per CREATE TABLE

def P05(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.25)
        others = [w for s in g.g["ddl"][0]["r"][-1]["a"][-1]["r"][:1] for w in s["w"]]

        def tab():
            t = g.table([g.column() for _ in range(rng.choice([1, 1, 2]))], ine=rng.random() < 0.4,
                        schema=g.name() if rng.random() < 0.4 else None)
            if d == "SQLite" and rng.random() < 0.2:
                t.insert(1, kw(rng.choice(["TEMP", "TEMPORARY"])))
            return t

        def other():
            t = [kw("CREATE"), kw(rng.choice(others))] + g.body()
            if d == "SQLite" and rng.random() < 0.2:
                t.insert(1, kw(rng.choice(["TEMP", "TEMPORARY"])))
            return t
        # every sequence of table (T) and other (O) statements up to length 5, twice
        for k in range(0, 6):
            for seq in itertools.product("TO", repeat=k):
                for _ in range(2 if c.scale <= 1 else 6):
                    toks = [x for y in seq for x in (tab() if y == "T" else other())]
                    out.append(call(d, style(toks, rng, d)))
        for w in others:
            for _ in range(c.n(3)):
                out.append(call(d, style(tab() + [kw("CREATE"), kw(w)] + g.body() + tab(), rng, d)))
        for _ in range(c.n(250)):
            out.append(call(d, style([x for _ in range(rng.randrange(1, 7))
                                      for x in (tab() if rng.random() < 0.7 else other())], rng, d)))
        for t in g.sentences(c.n(350), 20):
            out.append(call(d, style(t, rng, d)))
        # naming forms, exhaustively
        nm = [Tok("aa", "name"), Tok("Tbl", "name"), Tok("_x9", "name")] + [
            Tok(quote(x, q), "name") for q in IDQ[d] for x in ["", "a", "A b", "x.y", "it's", q, "TABLE", "IF", "a\nb", ";", "é日"]]
        for s in [None] + nm:
            for n in nm:
                for ine in (False, True):
                    if rng.random() < 0.6 or c.scale > 1:
                        out.append(call(d, layout.plain(g.table([g.column(name=Tok("cc", "name"))], name=n, schema=s, ine=ine))))
        for s in big_texts(c, d):
            out.append(call(d, s))
        ty = "TEXT" if d == "SQLite" else "INT"
        t1, t2 = "CREATE TABLE t1 (aa %s);" % ty, "CREATE TABLE IF NOT EXISTS s.t2 (b %s);" % ty
        for mid in ["CREATE TRIGGER x BEGIN CREATE TABLE z (aa %s); END;" % ty, "CREATE VIEW v AS SELECT 'CREATE TABLE z (aa);' ;",
                    "CREATE INDEX i ON t1 (aa);", "-- CREATE TABLE z (aa %s);\n" % ty, "/* CREATE TABLE z (aa %s); */" % ty,
                    "CREATE TRIGGER x BEGIN SELECT 1; SELECT 2; END ;", "CREATE TRIGGER x begin aa; b; end;",
                    "CREATE VIEW v AS SELECT (1;", "CREATE VIEW create_table AS TABLE t;", "CREATE TRIGGER b BEGIN END;",
                    "CREATE TRIGGER b AFTER INSERT ON t1 BEGIN INSERT INTO x VALUES (1); END; CREATE VIEW v AS 1;"]:
            for a, b in itertools.product((t1, t2, ""), repeat=2):
                out.append(call(d, a + "\n" + mid + "\n" + b))
        if d == "SQLite":
            for s in (t1 + t2[:-1], t1[:-1], t1[:-1] + "\n", t1[:-1] + " -- x", "CREATE TEMP TABLE t (aa TEXT)",
                      "CREATE TABLE t (aa TEXT) STRICT", "CREATE TABLE t (aa TEXT) WITHOUT ROWID, STRICT"):
                out.append(call(d, s))
    return out


# P06  columns

def P06(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.2)
        ts = types(g)
        for rep in range(2):
            for ty in types(g):
                out.append(call(d, layout.plain(g.table([g.column(type_=ty)]))))
                out.append(call(d, style(layout.recase(g.table([g.column(), g.column(
                    [rng.choice(rng.choice(clauses)[1])] if rep else [], type_=ty), g.column()]), rng,
                    rng.choice(["lower", "random", "title", "upper"])), rng, d)) if (clauses := clause_variants(g, 1)) else None)
        # sizes
        sizes = SIZES + ["+1", "000001", "12345678901", "+0000012", "999999999999999999"]
        for ty in ts:
            if any(t.k == "num" for t in ty):
                for n in rng.sample(sizes, 3):
                    out.append(call(d, layout.plain(g.table([g.column(type_=[
                        Tok(n if t.k == "num" else t.s, t.k) for t in ty])]))))
        for n, m in itertools.product(sizes[:12], repeat=2):
            w = {"SQLite": None, "PostgreSQL": "NUMERIC", "MySQL": "DECIMAL"}[d]
            if w:
                out.append(call(d, "CREATE TABLE t (aa %s(%s,%s));" % (w, n, m)))
        for t in itertools.chain(type_clause(g, rng), type_type(g, rng, c.n(1000))):
            out.append(call(d, layout.plain(t)))
        # interleavings of columns and table-level definitions
        tc = tcons_variants(g, 3)
        kinds = ["C"] + [k for k, _ in tc]
        tcd = dict(tc)
        for k in (1, 2, 3):
            for seq in itertools.product(kinds, repeat=k):
                if k == 3 and c.scale <= 1 and rng.random() < (0.0 if len(kinds) < 6 else 0.3):
                    continue
                defs = []
                for y in seq:
                    if y == "C":
                        defs.append(g.column(type_=rng.choice(ts)))
                    else:
                        x = rng.choice(tcd[y])
                        defs.append(named(g, x, g.name()) if rng.random() < 0.3 else x)
                out.append(call(d, layout.plain(g.table(defs))))
        for _ in range(c.n(300)):
            defs = []
            cv = clause_variants(g, 1)
            for _ in range(rng.randrange(1, 9)):
                if rng.random() < 0.7:
                    cons, tags = [], set()
                    for tag, vs in rng.sample(cv, rng.randrange(0, min(4, len(cv)))):
                        if tag not in tags:
                            tags.add(tag)
                            cons.append(rng.choice(vs))
                    defs.append(g.column(cons, type_=rng.choice(ts)))
                else:
                    defs.append(rng.choice(rng.choice(tc)[1]))
            out.append(call(d, style(g.table(defs), rng, d)))
        for t in g.sentences(c.n(300), 30):
            out.append(call(d, style(t, rng, d)))
        # column names of every form
        for q in IDQ[d]:
            for x in ODD:
                out.append(call(d, layout.plain(g.table([g.column(name=Tok(quote(x, q), "name")), g.column()]))))
        for s in big_texts(c, d):
            out.append(call(d, s))
    return out


# P07  column constraints

def combos(g, rng, k, limit):
    cv = clause_variants(g, 4)
    if math.perm(len(cv), k) <= limit:
        allp = list(itertools.permutations(range(len(cv)), k))
    else:
        allp = [rng.sample(range(len(cv)), k) for _ in range(limit)]
    for p in allp:
        tags = [cv[i][0] for i in p]
        if len(set(tags)) == len(tags):
            yield [rng.choice(cv[i][1]) for i in p]


def P07(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.1)
        for k, lim in ((1, 10 ** 6), (2, 10 ** 6), (3, c.n(3600)), (4, c.n(700)), (5, c.n(250)), (7, c.n(80))):
            for rep in range(3 if k == 1 else 1):
                for cons in combos(g, rng, k, lim):
                    pre = []
                    if rng.random() < 0.3:
                        pre = [[kw("CONSTRAINT"), g.name()]]
                    out.append(call(d, layout.plain(column_probe(g, pre + cons)) if rng.random() < 0.8
                                    else style(column_probe(g, pre + cons), rng, d)))
        for t in type_clause(g, rng):
            out.append(call(d, layout.plain(t)))
        for t in type_clauses(g, rng, c.n(5000)):
            out.append(call(d, layout.plain(t)))
        for t in references(g, rng, c.n(1500)):
            out.append(call(d, layout.plain(t)))
        # each clause followed by each kind of definition, at the end of the list, on the last column
        cv = clause_variants(g, 3)
        tc = tcons_variants(g, 1)
        for _, vs in cv:
            for v in vs:
                out.append(call(d, layout.plain(g.table([g.column([v])]))))
                out.append(call(d, layout.plain(g.table([g.column([v], name=Tok("p", "name")), g.column([v], name=Tok("q", "name"))]))))
                for _, ws in tc:
                    out.append(call(d, layout.plain(g.table([g.column([v]), rng.choice(ws)]))))
        # each clause on a column after each clause on the column before, named or not
        for (_, va), (_, vb) in itertools.product(cv, cv):
            for na, nb in ((0, 0), (1, 0), (0, 1), (1, 1)):
                x = ([[kw("CONSTRAINT"), g.name()]] if na else []) + [rng.choice(va)]
                y = ([[kw("CONSTRAINT"), g.name()]] if nb else []) + [rng.choice(vb)]
                t = [g.column(x), g.column(y)]
                if rng.random() < 0.2:
                    t.insert(1, g.column())
                out.append(call(d, layout.plain(g.table(t))))
        # names
        for q in IDQ[d]:
            for x in ODD:
                n = Tok(quote(x, q), "name")
                out.append(call(d, layout.plain(column_probe(g, [[kw("CONSTRAINT"), n, kw("UNIQUE")]]))))
                out.append(call(d, layout.plain(column_probe(g, [[kw("REFERENCES"), n, kw("("), n, kw(")")]]))))
                out.append(call(d, layout.plain(column_probe(g, [[kw("REFERENCES"), n, kw("."), n, kw("NOT"), kw("NULL")]]))))
        for n in ["auto_increment", "autoincrement", "AUTOINCREMENT", "c1", "collate_x", "not_null", "KEY1", "comment", "storage",
                  "visible", "stored", "virtual", "enforced", "initially", "match", "no", "include", "using"]:
            for tail in ("UNIQUE", "NOT NULL", "PRIMARY KEY", "CHECK (x)", "DEFAULT 1", "REFERENCES r", "", "REFERENCES r (aa) UNIQUE"):
                out.append(call(d, "CREATE TABLE t (aa %s CONSTRAINT %s %s, b %s);" % (
                    "TEXT" if d == "SQLite" else "INT", n, tail, "TEXT" if d == "SQLite" else "INT")))
        # checks: the text of the expression
        for _ in range(c.n(400)):
            out.append(call(d, layout.plain(column_probe(g, [[kw("CHECK")] + g.group()]))))
        for t in g.sentences(c.n(250), 30):
            out.append(call(d, style(t, rng, d)))
    return out


# P08  table constraints

def P08(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.12)
        for k, lim in ((1, 6), (2, 3), (3, 1)):
            tc = tcons_variants(g, 6)
            cv = clause_variants(g, 3)
            kinds = ["C"] + [k_ for k_, _ in tc]
            tcd = dict(tc)
            for rep in range(c.n(lim)):
                for seq in itertools.product(kinds, repeat=k):
                    defs = []
                    for y in seq:
                        if y == "C":
                            cons = [rng.choice(rng.choice(cv)[1])] if rng.random() < 0.5 else []
                            defs.append(g.column([[kw("CONSTRAINT"), g.name()]] + cons if rng.random() < 0.2 else cons))
                        else:
                            x = rng.choice(tcd[y])
                            defs.append(named(g, x, g.name()) if rng.random() < 0.5 else x)
                    if "C" not in seq and rng.random() < 0.7:
                        defs.insert(rng.randrange(len(defs) + 1), g.column())
                    out.append(call(d, layout.plain(g.table(defs)) if rng.random() < 0.8 else style(g.table(defs), rng, d)))
        tc = tcons_variants(g, 6)
        if d == "MySQL":    # CONSTRAINT without a symbol
            for k_, vs in tc:
                if k_ in ("PRIMARY", "UNIQUE", "FOREIGN", "CHECK"):
                    for v in vs:
                        out.append(call(d, layout.plain(g.table([g.column(), [kw("CONSTRAINT")] + v]))))
        for _, vs in tc:
            for v in vs:
                for q in IDQ[d]:
                    x = rng.choice(ODD)
                    out.append(call(d, layout.plain(g.table([g.column(), named(g, v, Tok(quote(x, q), "name"))]))))
        # key column lists
        for _ in range(c.n(250)):
            ns = [g.name() for _ in range(rng.randrange(1, 7))]
            cols = []
            for i, n in enumerate(ns):
                cols += ([kw(",")] if i else []) + [n]
                if d == "MySQL":
                    if rng.random() < 0.3:
                        cols += [kw("("), g.size(), kw(")")]
                    if rng.random() < 0.3:
                        cols += [kw(rng.choice(["ASC", "DESC"]))]
                    if rng.random() < 0.15:
                        cols += [kw(",")] + g.group(2)
            for head in ([kw("PRIMARY"), kw("KEY")], [kw("UNIQUE")]):
                out.append(call(d, style(g.table([g.column(), head + [kw("(")] + cols + [kw(")")]]), rng, d)))
            plainc = []
            for i, n in enumerate(ns):
                plainc += ([kw(",")] if i else []) + [n]
            ref = ([g.name(), kw(".")] if rng.random() < 0.3 else []) + [g.name()]
            fk = [kw("FOREIGN"), kw("KEY"), kw("(")] + plainc + [kw(")"), kw("REFERENCES")] + ref + [kw("(")] + cols + [kw(")")]
            out.append(call(d, style(g.table([g.column(), fk, g.column()]), rng, d)))
        for _ in range(c.n(250)):
            out.append(call(d, layout.plain(g.table([g.column(), [kw("CHECK")] + g.group(), [kw("CHECK")] + g.group()]))))
        for t in g.sentences(c.n(300), 30):
            out.append(call(d, style(t, rng, d)))
        for s in big_texts(c, d):
            out.append(call(d, s))
    return out


# P09  unmodelled clauses

def strip(toks):
    return [t for t in toks if not t.neutral]


def P09(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.08)

        def add(t):
            r = rng.random()
            if r < 0.12:
                t = g.table([g.column()]) + t
            elif r < 0.24:
                t = t + g.table([g.column()])
            elif r < 0.3:
                t = g.statement(6) + t + g.table([g.column()])
            b = strip(t)
            if len(b) == len(t):
                out.append(call(d, layout.plain(t)))
                return
            i = len(out)
            out.append(call(d, layout.plain(b)))
            out.append(call(d, layout.plain(t), base=[i]))
        # every neutral option of every constraint, followed by every other constraint
        cv = clause_variants(g, 6)
        for (ta, va), (tb, vb) in itertools.permutations(cv, 2):
            if ta != tb:
                for a in (va if c.scale > 1 else rng.sample(va, min(2, len(va)))):
                    add(column_probe(g, [a, rng.choice(vb)]))
        for t in type_clause(g, rng):
            add(t)
        for t in type_clauses(g, rng, c.n(6000)):
            if any(x.neutral for x in t):
                add(t)
        for t in references(g, rng, c.n(2500)):
            add(t)
        for _, vs in cv:
            for v in vs:
                add(column_probe(g, [v]))
                add(g.table([g.column([v])]))
        tc = tcons_variants(g, 8)
        for _, vs in tc:
            for v in vs:
                add(g.table([g.column(), v]))
                add(g.table([v, g.column()]))
                add(g.table([g.column(), v, rng.choice(rng.choice(tc)[1]), g.column()]))
        for _ in range(c.n(120)):
            for a in (g.g["topt"] if d != "SQLite" else []):
                if rng.random() < 0.35:
                    opts = g.derive(a["r"], 10)
                    for t in opts:
                        t.neutral = True
                    more = g.nt("topts", rng.choice([0, 8]))
                    for t in more:
                        t.neutral = True
                    add(g.table([g.column(), g.column()], opts + more) + (g.statement(5) if rng.random() < 0.3 else []))
        for t in skeletons(g, c.n(900), 25):
            add(t)
        if d == "SQLite":
            for o in ("WITHOUT ROWID", "STRICT", "WITHOUT ROWID, STRICT", "STRICT, WITHOUT ROWID"):
                for tmp in ("", "TEMP ", "TEMPORARY "):
                    i = len(out)
                    out.append(call(d, "CREATE TABLE t (aa TEXT, b REAL);CREATE TABLE u (cc TEXT);"))
                    out.append(call(d, "CREATE %sTABLE t (aa TEXT, b REAL) %s;CREATE %sTABLE u (cc TEXT) %s;" % (tmp, o, tmp, o), base=[i]))
    return out


# P10  layout

def P10(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.12)
        fills = layout.FILL + (layout.FILL_MY if d == "MySQL" else [])
        vocab = vocabulary(c, d)

        def group(t, variants):
            i = len(out)
            out.append(call(d, " ".join(x.s for x in t)))
            for v in variants:
                out.append(call(d, v, base=[i]))
        for t in skeletons(g, c.n(330), 14):
            if rng.random() < 0.25:
                t = mutate(t, rng, vocab) or t
            group(t, [layout.tight(t), layout.lines(t, rng.choice(["\n", "\r\n", "\t"])), layout.loose(t, rng, d, 0.3),
                      layout.loose(t, rng, d, 0.9), layout.loose(t, rng, d, 1.0)])
        # each filler at each boundary of fixed statements
        for src in (["CREATE", "TABLE", "s", ".", "t", "(", "aa", "TEXT" if d == "SQLite" else "INT", "DEFAULT", "-1.5", ",", "b",
                     "TEXT" if d == "SQLite" else "INT", "CHECK", "(", "b", "*", "2", "-", "1", "/", "x", "=", "'q'", ")",
                     ",", "UNIQUE", "(", "aa", ")", ")", ";"],):
            t = [Tok(x, "sym" if x in SYMBOLS else "kw") for x in src]
            vs = []
            for i in range(len(src) + 1):
                for f in fills:
                    left, right = " ".join(src[:i]), " ".join(src[i:])
                    sep = " " if left and left[-1] in "-/*" else ""
                    vs.append(left + sep + f + right)
            group(t, vs)
        # every short string of lexical characters at two places of a statement
        ty = "TEXT" if d == "SQLite" else "INT"
        alpha = ["x", "-", "/", "*", "#", "\n", " ", "'", "(", ")"]
        for k in (1, 2, 3):
            for x in itertools.product(alpha, repeat=k):
                s = "".join(x)
                if k < 3 or c.scale > 1 or rng.random() < 0.5:
                    out.append(call(d, "CREATE TABLE t (aa %s CHECK (p%sq));\n" % (ty, s)))
                if k < 3 or c.scale > 1 or rng.random() < 0.25:
                    out.append(call(d, "CREATE TABLE t (aa %s%s);\n" % (ty, s)))
        alpha = ["--", "/*", "*/", "\n", "'", "x", " ", "#", "-", "*", "/"]
        for k in (2, 3, 4):
            for x in itertools.product(alpha, repeat=k):
                if k < 3 or rng.random() < (0.5 if k == 3 else 0.03) * c.scale:
                    out.append(call(d, "CREATE TABLE t (aa %s) %s ;\n" % (ty, "".join(x))))
        # a separator of every kind directly behind and before words of every form
        seps = ["--c\n", "--\n", "/*c*/", "/**/", "\t", "\n", "\r\n", "---\n", "--1\n", "/*1*/", "-- \n"] + (["#c\n", "#1\n"] if d == "MySQL" else [])
        last, first = "abcdefghijklmnopqrstuvwxyz0123456789_EX", "abcdehnsuxyzABEXNZ_"
        for z in last:
            for y in ("", rng.choice("agnz"), rng.choice("0179"), "_", rng.choice("EXe")):
                n = "q" + rng.choice(["", "r", "2"]) + y + z
                m = rng.choice(first) + rng.choice(["", "1", "_"]) + "q" + y + z
                v = rng.choice(["7", "1.5", "-2", "1e5", "2E-3", "10", "0", "NULL", "true", "'s'"])
                src = ["CREATE", "TABLE", n, "(", m, ty, "DEFAULT", v, "UNIQUE", ",", n, ty, "CHECK", "(", n, v, m, ")", ",", "UNIQUE", "(", m, ",", n, ")", ")", ";"]
                vs = []
                for x in some(rng, seps, 4):
                    vs.append(x.join(src))
                vs.append("".join(w + rng.choice(seps) for w in src))
                group([Tok(x, "kw") for x in src], vs)
        # ends of the text
        for pre in fills + ["", "/**/--\n"]:
            for post in fills + ["", "--", "-- x", "/**/", "/*", "-", "\r", "#"]:
                if rng.random() < 0.5 or c.scale > 1:
                    out.append(call(d, pre + "CREATE TABLE t (aa %s);" % ty + post))
        for s in big_texts(c, d)[9:11]:
            out.append(call(d, s))
        long_ = ["/*" + "c" * 3000 + "*/", "--" + "c" * 3000 + "\n", " " * 3000, "\n" * 1500, "/*" + "*" * 1001 + "/",
                 "\t" * 700, "\r\n" * 700, "/*\n" * 400 + "*/"]
        for f in long_:
            out.append(call(d, "CREATE TABLE%st (aa %s,%sb %s)%s;" % (f, ty, f, ty, f)))
    return out


# P11  quoted tokens

def P11(c):
    rng, out = c.rng, []
    special = ["'", '"', "`", "-", "/", "*", "#", ";", "(", ")", ",", ".", "\n", " ", "a", "\\", "　", "=", "\r"]
    for d in DIALECTS:
        ty = "TEXT" if d == "SQLite" else "INT"
        places_id = ["CREATE TABLE %s (aa T);", "CREATE TABLE %s.t (aa T);", "CREATE TABLE t (%s T);", "CREATE TABLE t (aa T CONSTRAINT %s UNIQUE);",
                     "CREATE TABLE t (aa T REFERENCES %s (%s));", "CREATE TABLE t (aa T, CONSTRAINT %s CHECK (%s > 1));",
                     "CREATE TABLE t (aa T, PRIMARY KEY (%s), UNIQUE (b, %s));", "CREATE TABLE t (aa T, FOREIGN KEY (%s) REFERENCES %s (%s));",
                     "CREATE TABLE t (aa T REFERENCES s.%s NOT NULL);"]
        places_str = ["CREATE TABLE t (aa T DEFAULT %s);", "CREATE TABLE t (aa T DEFAULT %s NOT NULL, b T);", "CREATE TABLE t (aa T CHECK (aa <> %s));",
                      "CREATE TABLE t (aa T DEFAULT (f(%s,%s)), b T);", "CREATE TABLE t (aa T, CHECK (aa IN (%s, 'z')));"]
        if d == "MySQL":
            places_id += ["CREATE TABLE t (aa T COLLATE %s);", "CREATE TABLE t (aa T, INDEX %s (aa));", "CREATE TABLE t (aa T) ENGINE=%s;",
                          "CREATE TABLE t (aa T, KEY (%s(3) DESC), b T);"]
            places_str += ["CREATE TABLE t (aa T COMMENT %s, b T);", "CREATE TABLE t (aa T) COMMENT=%s;", "CREATE TABLE t (aa T, KEY (aa) COMMENT %s, b T);",
                           "CREATE TABLE t (aa T) DATA DIRECTORY %s;"]
        if d == "PostgreSQL":
            places_id += ["CREATE TABLE t (aa T) TABLESPACE %s;", "CREATE TABLE t (aa T PRIMARY KEY INCLUDE (%s));"]
        skip = ["CREATE VIEW v AS SELECT %s; CREATE TABLE t (aa T);", "CREATE TRIGGER gg BEGIN SELECT %s; END; CREATE TABLE t (aa T);"]

        def put(place, s):
            return call(d, typed(place, ty).replace("%s", s))
        quotes = "'\"" if d == "PostgreSQL" else "'\"`"
        for q in "'\"`":
            for place in places_id + places_str + skip:
                for x in ODD:
                    if rng.random() < 0.75 or c.scale > 1:
                        out.append(put(place, quote(x, q)))
            for k in (1, 2):
                for x in itertools.product(special, repeat=k):
                    s = quote("".join(x), q)
                    for place in rng.sample(places_id + places_str + skip, 2 if k == 2 else 6):
                        out.append(put(place, s))
            # every printable character, alone, doubled, between others
            for ch in [chr(i) for i in range(33, 127)] + ["\t", "\0", "\x7f", "\u00a0", "\u2028", "é", "ß", "İ", "日", "😀", "\ufffd", "\ufeff"]:
                for x in (ch, ch * 2, ch * 3, "a" + ch + "b", ch + "n", "a b" + ch, ch + " ", " " + ch, "n" + ch * 2 + "s", ch + "(1)" + ch, ch + "1"):
                    for place in rng.sample(places_id, 2) + rng.sample(places_str, 2) if c.scale > 1 else rng.sample(places_id + places_str, 2):
                        out.append(put(place, quote(x, q)))
            for x in itertools.product(special, repeat=3):
                if c.scale > 1 or rng.random() < 0.12:
                    out.append(put(rng.choice(places_id + places_str), quote("".join(x), q)))
            # raw quotes: unbalanced, adjacent, mixed
            for k in (1, 2, 3, 4, 5):
                for x in itertools.product([q, "a", "\n", '"' if q != '"' else "'"], repeat=k):
                    if k < 4 or rng.random() < 0.15 * c.scale:
                        out.append(put(rng.choice(places_id + places_str), q + "".join(x)))
            for x, y in itertools.product(["", "a", q, "--", "\n"], repeat=2):
                for r in "'\"`":
                    out.append(put(rng.choice(places_id + places_str), quote(x, q) + quote(y, r)))
        # every keyword and reserved word, quoted, in every position
        places_id += ["CREATE TABLE t (aa T, %s T);", "CREATE TABLE t (aa T, %s T NOT NULL, b T);", "CREATE TABLE t (aa T, UNIQUE (aa), %s T);",
                      "CREATE TABLE t (aa T DEFAULT 1, %s T DEFAULT 2, CHECK (%s));", "CREATE TABLE t (aa T NOT NULL CHECK (aa), %s T);",
                      "CREATE TABLE t (aa T REFERENCES r (%s) UNIQUE);", "CREATE TABLE t (aa T, FOREIGN KEY (aa, %s) REFERENCES s.r (x, %s), b T);"]
        for w in sorted(c.spec.reserved[d] | set(c.spec.words[d]) | set(EXPRWORDS)):
            for q in quotes:
                mine = places_id if q in IDQ[d] else places_str
                for place in mine if c.scale > 3 else some(rng, mine[-7:], 4) + some(rng, mine[:-7], 4):
                    v = rng.choice([w, w.lower(), w, w.capitalize()])
                    out.append(put(place, quote(v, q)))
        g = c.gen(d, odd=0.7)
        for t in g.sentences(c.n(350), 24):
            out.append(call(d, style(t, rng, d)))
        for q in quotes:
            for n in (255, 1024, 5000):
                out.append(put("CREATE TABLE t (aa T DEFAULT %s);" if q in STRQ[d] else "CREATE TABLE %s (aa T);", quote("ab c" * (n // 4), q)))
                out.append(put("CREATE TABLE t (aa T DEFAULT %s);" if q in STRQ[d] else "CREATE TABLE t (%s T);", quote(q * n, q)))
    return out


# P12  letter case

def P12(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.1)
        vocab = vocabulary(c, d)

        def group(t):
            i = len(out)
            out.append(call(d, layout.plain(t)))
            for m in ("lower", "random", "title", "one", "mixed"):
                out.append(call(d, layout.plain(layout.recase(t, rng, m)), base=[i]))
        for t in skeletons(g, c.n(450), 16):
            group(t)
        for t in skeletons(g, c.n(60), 10):
            group(mutate(t, rng, vocab) or t)
        for ty in types(g):
            group(g.table([g.column(type_=ty)]))
        for t in type_clause(g, rng, 0.8):
            i = len(out)
            out.append(call(d, layout.plain(t)))
            for m in ("mixed", rng.choice(["mixed", "random"])):
                out.append(call(d, layout.plain(layout.recase(t, rng, m)), base=[i]))
        for t in pairs(g, rng, 2):
            if rng.random() < 0.5 or c.scale > 1:
                group(t)
        # repeated constraints in different case stay repeated
        for _, vs in clause_variants(g, 1):
            for v in vs:
                t = column_probe(g, [v, v])
                out.append(call(d, layout.plain(layout.recase(t, rng, "random"))))
                out.append(call(d, layout.plain(t[:9] + layout.recase(t[9:], rng, "lower"))))
        # names keep their case
        ty = "TEXT" if d == "SQLite" else "INT"
        for n in ["abc", "ABC", "Abc", "aBC", "ID", "Id", "id", "Übung", "X_y", "xYz_09", "pk_a", "PK_A", "T_UK", "t_uk", "T_fk", "IDX_X",
                  "NULLS", "Checked", "DEFAULT_A", "not_a", "Unique_x", "KEY_"]:
            qn = n if n.isascii() else quote(n, IDQ[d][0])
            for m in ["abc", "ABC", "aBc"]:
                out.append(call(d, "CREATE TABLE %s.%s (%s %s CONSTRAINT %s UNIQUE REFERENCES %s (%s), %s %s DEFAULT '%s', "
                                   "CONSTRAINT %s PRIMARY KEY (%s, %s), CHECK (%s > %s), FOREIGN KEY (%s) REFERENCES %s (%s));" % (
                                       qn, m, qn, ty, m, qn, m, m, ty, n, qn, m, qn, qn, m, m, qn, m)))
        for n in ["current_timestamp", "CURRENT_TIMESTAMP", "Current_Date", "cURRENT_tIME", "null", "Null", "true", "True", "fAlse"]:
            out.append(call(d, "create table T (Aa %s default %s, b %s Default (%s))" % (ty.lower(), n, ty, n) + ";"))
    return out


# P13  concatenation

def P13(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g = c.gen(d, odd=0.1)
        vocab = vocabulary(c, d)
        pool, texts = [], []
        for _ in range(c.n(110)):
            pool.append((g.statement(rng.choice([4, 8, 16])), True))
        for _ in range(c.n(60)):
            pool.append((mutate(g.statement(8), rng, vocab), False))
        for a in g.g["ddl"][0]["r"][-1]["a"][-1]["r"][0]["w"]:
            pool.append(([kw("CREATE"), kw(a)] + g.body(), True))
        lex = [("'", False), ("CREATE TABLE t (aa", False), ("/*", False), ("", True), ("\n\n", True), ("-- c\n", True), ("/* c */", True)]
        idx = []
        for t, good in pool:
            idx.append((len(out), style(t, rng, d) if t else "", good))
            out.append(call(d, idx[-1][1]))
        for s, good in lex:
            idx.append((len(out), s, good))
            out.append(call(d, s))
        goods = [x for x in idx if x[2]]
        for _ in range(c.n(1500)):
            k = rng.choice([2, 2, 2, 3, 4])
            parts = [rng.choice(goods) for _ in range(k - 1)] + [rng.choice(idx)]
            seps = [rng.choice(["", "\n", " ", "\n\n", "/**/", "-- x\n"]) for _ in range(k)]
            s = ""
            for j, (i, t, _) in enumerate(parts):
                if s and "--" in s.split("\n")[-1] or d == "MySQL" and "#" in s.split("\n")[-1]:
                    s += "\n"
                s += t + (seps[j] if j < k - 1 else "")
            out.append(call(d, s, base=[p[0] for p in parts]))
        # several tables, each with a few definitions
        cv, tc = clause_variants(g, 2), tcons_variants(g, 3)
        small = []
        for _ in range(c.n(90)):
            defs = [g.column([rng.choice(rng.choice(cv)[1])] if rng.random() < 0.5 else []) for _ in range(rng.choice([1, 1, 2, 3]))]
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                x = rng.choice(rng.choice(tc)[1])
                defs.append(named(g, x, g.name()) if rng.random() < 0.4 and x[0].s.upper() in ("PRIMARY", "UNIQUE", "CHECK", "FOREIGN") else x)
            if rng.random() < 0.2:
                rng.shuffle(defs)
            small.append((len(out), layout.plain(g.table(defs, schema=g.name() if rng.random() < 0.25 else None, ine=rng.random() < 0.25))))
            out.append(call(d, small[-1][1]))
        for _ in range(c.n(1200)):
            parts = [rng.choice(small) for _ in range(rng.choice([2, 3, 3, 3, 4, 5]))]
            out.append(call(d, rng.choice(["", "\n", " "]).join(t for _, t in parts), base=[i for i, _ in parts]))
        # long texts of different statements
        short = [x for x in goods if 0 < len(x[1]) < 160]
        for _ in range(c.n(16)):
            k = rng.choice([9, 17, 20, 33, 40, 65])
            parts = [rng.choice(short) for _ in range(k)]
            out.append(call(d, "\n".join(t for _, t, _ in parts), base=[i for i, _, _ in parts]))
        # longer ones of shorter statements
        ty = "TEXT" if d == "SQLite" else "INT"
        brief = []
        for s in ("CREATE TABLE t (aa T);", "CREATE TABLE s.u (b T);", "CREATE TABLE v (cc T NOT NULL);", "CREATE VIEW v AS 1;", "CREATE TABLE w (x T, UNIQUE (x));"):
            brief.append((len(out), typed(s, ty)))
            out.append(call(d, brief[-1][1]))
        for k in (101, 130, 170, 210, 257, 300, 513) if c.scale <= 4 else (101, 130, 257, 300, 513, 700, 1025):
            parts = [rng.choice(brief) for _ in range(k)]
            out.append(call(d, rng.choice(["\n", " ", ""]).join(t for _, t in parts), base=[i for i, _ in parts]))
        # the same statement many times, and each good statement in front of and behind a fixed one
        for i, t, _ in rng.sample(goods, min(len(goods), 25)):
            out.append(call(d, "\n".join([t] * rng.choice([2, 5, 12])), base=[i]))
    return out


# P15  names and reserved words

def P15(c):
    rng, out = c.rng, []
    words = sorted(set().union(*c.spec.reserved.values()) | set(w for d in DIALECTS for w in c.spec.words[d] if w.isidentifier()))
    for d in DIALECTS:
        ty = "TEXT" if d == "SQLite" else "INT"
        places = ["CREATE TABLE %s (aa T);", "CREATE TABLE %s.t (aa T);", "CREATE TABLE s.%s (aa T);", "CREATE TABLE t (%s T);",
                  "CREATE TABLE t (b T, %s T);",
                  "CREATE TABLE t (aa T CONSTRAINT %s UNIQUE);", "CREATE TABLE t (aa T REFERENCES %s);", "CREATE TABLE t (aa T REFERENCES s.%s (x));",
                  "CREATE TABLE t (aa T REFERENCES r (%s));",
                  "CREATE TABLE t (aa T, CONSTRAINT %s UNIQUE (aa));", "CREATE TABLE t (aa T, PRIMARY KEY (%s));", "CREATE TABLE t (aa T, UNIQUE (aa, %s));",
                  "CREATE TABLE t (aa T, FOREIGN KEY (%s) REFERENCES r (x));", "CREATE TABLE t (aa T, FOREIGN KEY (aa) REFERENCES %s (x));",
                  "CREATE TABLE t (aa T, FOREIGN KEY (aa) REFERENCES r (%s));"]
        if d == "MySQL":
            places += ["CREATE TABLE t (aa T COLLATE %s);", "CREATE TABLE t (aa T, INDEX %s (aa));", "CREATE TABLE t (aa T, UNIQUE KEY %s (aa));",
                       "CREATE TABLE t (aa T, KEY kk (%s DESC));", "CREATE TABLE t (aa T) ENGINE=%s;", "CREATE TABLE t (aa T) TABLESPACE %s;",
                       "CREATE TABLE t (aa T) UNION=(x, %s);", "CREATE TABLE t (aa T, FULLTEXT %s (aa) WITH PARSER p);",
                       "CREATE TABLE t (aa T, FOREIGN KEY %s (aa) REFERENCES r (x));", "CREATE TABLE t (aa T) DEFAULT CHARACTER SET %s;"]
        if d == "PostgreSQL":
            places += ["CREATE TABLE t (aa T) TABLESPACE %s;", "CREATE TABLE t (aa T UNIQUE INCLUDE (%s));", "CREATE TABLE t (aa T, EXCLUDE USING %s (x));",
                       "CREATE TABLE t (aa T) USING %s;", "CREATE TABLE t (aa T UNIQUE USING INDEX TABLESPACE %s);"]
        if d == "SQLite":
            places += ["CREATE TABLE t (aa T REFERENCES r MATCH %s);"]
        places = [typed(p, ty) for p in places]
        core = [0, 3, 5, 10]
        for w in words:
            ps = set(core)
            if c.scale <= 1:
                ps |= set(rng.sample(range(len(places)), 2))
            else:
                ps = set(range(len(places)))
            for i in ps:
                case = rng.choice([w, w.lower(), w.lower(), w.capitalize(), "".join(rng.choice((x.lower(), x.upper())) for x in w)])
                out.append(call(d, places[i].replace("%s", case)))
            q = rng.choice(IDQ[d])
            out.append(call(d, rng.choice(places).replace("%s", quote(w, q))))
            v = rng.choice([w + "_", "_" + w, w + "1", w + "s", w[:-1] or "q", w + w, "x" + w, w.replace("_", "") + "q"])
            out.append(call(d, rng.choice(places).replace("%s", v.lower() if rng.random() < 0.5 else v)))
        shapes = ["a", "A", "_", "_1", "a1", "a_b", "Z9_", "z" * 64, "z" * 200, "1", "1a", "a-b", "a$b", "$a", "a b", "é", "aé", "a.b", "@a", "a#b", "[a]",
                  "a'b", '"a"', "'a'", "`a`", "a\"b", "-a", "+a", "a+", "a/b", "*", "a*", "0x1", "1e5", "１", "ａ", "a!", "a?", "a:b", "a\\", "{a}",
                  "_" * 9, "aA0_", "\u00e9", "名前", "", "x1y2", "N", "E5", "e5", "rowid", "oid", "dual", "a\u200b"]
        for s in shapes + rng.sample(COMMON, 40):
            for p in places:
                out.append(call(d, p.replace("%s", s)))
        for ch in [chr(i) for i in range(33, 127)]:
            out.append(call(d, places[3].replace("%s", "a" + ch + "b")))
            out.append(call(d, places[0].replace("%s", ch)))
            out.append(call(d, places[0].replace("%s", ch + "z")))
        # every character that is not of a plain name, at the front, in the middle and at the end of one
        plain = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
        chars = [chr(i) for i in range(33, 127) if chr(i) not in plain] + list("\u212a\u017f\u0131\u0130éßÀñｋ９_日αж٣²½ªº\u00b7\u0301\u200b\u00a0\u00ad\ufeff\ufffd😀")
        for ch in chars + list("059AZaz_"):
            for v in (ch, ch + "b", "b" + ch, "b" + ch + "b", "b1_" + ch + "7", "b" + ch + ch):
                for p in some(rng, places, 3 if c.scale <= 1 else 7):
                    out.append(call(d, p.replace("%s", v)))
    return out


# P17  default values

def P17(c):
    rng, out = c.rng, []
    nums = NUMS + ["5", "9", "12", "1234567890", "0.1", "0.25", "-3.75", "+0.5", "00.50", "1e0", "1E-3", "1.5E+2", "-2e2", "0e0", "0.000", "1e10", "1e15",
                   "123456.789", "999999999999999", "1e22", "1e-7", "5e-1", "100000", "2147483648", "-2147483649", "4294967296", "0.5e1", "12e0", "1e-20",
                   "1e100", "-1e-100", "1e308", "1e-300", "1e400", "-1e999", "1e99999999999", "1e-99999999999", "9007199254740992", "8e307",
                   # as exact as a float64 can be
                   "9007199254740993", "9007199254740995", "18014398509481985", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
                   "0.1000000000000000055511151231257827", "0.10000000000000000555111512312578270211815834045410156250000001", "3.141592653589793238462643383279", "2.718281828459045",
                   "0.30000000000000004", "0.3000000000000000444089209850062616169452667236328125", "1.0000000000000002220446049250313", "1.00000000000000011102230246251565404",
                   "1.00000000000000011102230246251565405", "1.00000000000000033306690738754696", "123456789012345678901234567890", "99999999999999999999", "1e23", "8.41e21", "5e-324", "4.9e-324",
                   "2.4703282292062327e-324", "2.4703282292062328e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "1.7976931348623157e308", "1.7976931348623158e308",
                   "1.7976931348623159e308", "17976931348623157" + "0" * 292, "1" + "0" * 308, "1" + "0" * 309, "0." + "0" * 330 + "1", "1e-400", "1e-323", "3e-324", "123456789.123456789",
                   "1234567.1234567890123", "0.12345678901234567", "12345678901234567.0", "4503599627370496.5", "4503599627370497.5", "9007199254740991.5", "1e16", "1e17", "12345678901234567e-5"]
    notnum = ["1.", ".5", "1e", "1e+", "e5", "1.5.2", "--1", "+-1", "1..2", "0x1F", "1_000", "1,000", "NaN", "Inf", "Infinity", "-", "+", "1f", "1d", "１", "1e5.5",
              "1.e5", "-.5", "+.5", "1 2", "- 1", "x", "now", "b'1'", "X'1F'", "N'a'", "E'a'", "(", ")", "()", "1)", "CURRENT_USER", "CURRENT_TIMESTAMP()",
              "NULLS", "TRUE1", "YES", "''''", "''", "'a''b'", "'1'", "'NULL'", "'1.5'", "'(x)'", "' a '", "\"a\"", "`a`", "\"1\"", "'true'", "a.b", "nextval('s')",
              "'a' 'b'", "1=1", "=1", "= 1", "DEFAULT", "NOT NULL", "INTERVAL '1'", "'é'", "'\n'", "'\t x'", "'\\'", "'a\\nb'", "true", "False", "null", "current_date"]
    for d in DIALECTS:
        ty = "TEXT" if d == "SQLite" else "INT"
        g = c.gen(d, odd=0.15)
        tails = ["", " NOT NULL", " UNIQUE", ", b T", " PRIMARY KEY, b T DEFAULT 7", " CHECK (aa > 1)", " REFERENCES r (x)"]
        heads = ["", "NOT NULL ", "UNIQUE ", "CONSTRAINT cc ", "PRIMARY KEY "]
        for x in nums + notnum:
            for t in tails:
                h = rng.choice(heads)
                out.append(call(d, typed("CREATE TABLE t (z T, aa T %sDEFAULT " % h, ty) + x + typed(t, ty) + ");"))
            out.append(call(d, "CREATE TABLE t (aa %s DEFAULT (%s), b %s);" % (ty, x, ty)))
            out.append(call(d, "CREATE TABLE t (aa %s DEFAULT %s /* cc */ , b %s);" % (ty, x, ty)))
        # every shape of number
        for x in itertools.product(["", "+", "-"], ["0", "1", "40", "007", "0.0", "0.5", "12.50", "3.0", "00.7", "123456789"],
                                   ["", "e0", "e5", "E5", "e+5", "E+5", "e-5", "E-5", "e05", "E+07", "e-003"]):
            out.append(call(d, "CREATE TABLE t (z %s, aa %s DEFAULT %s%s);" % (ty, ty, "".join(x), rng.choice(["", " ", " NOT NULL", ", b " + ty]))))
        # expressions: all short token sequences over a small vocabulary
        vocab = ["a", "B", "1", "2.5", "-1", "+", "*", "-", "=", ",", ".", "'s'", "(", ")", "NULL", "AND", ";", "\"q\"", "||"]
        for k in (1, 2, 3):
            for x in itertools.product(vocab, repeat=k):
                if k == 3 and (c.scale <= 1 and rng.random() > 0.3):
                    continue
                depth, ok = 0, True
                for y in x:
                    depth += (y == "(") - (y == ")")
                    ok = ok and depth >= 0
                if ok and depth == 0:
                    out.append(call(d, "CREATE TABLE t (aa %s DEFAULT (%s), b %s);" % (ty, rng.choice([" ", " ", "  ", "\n"]).join(x), ty)))
        for _ in range(c.n(900)):
            out.append(call(d, style(column_probe(g, [[kw("DEFAULT")] + g.group()]), rng, d)))
        # long values
        for k in (60, 250, 700, 1100):
            for x in ["+".join(["v1"] * k), " + ".join("v%d" % i for i in range(k // 2)), "f(" * (k // 3) + "1" + ")" * (k // 3), ", ".join(["'it''s'"] * (k // 3)),
                      "x" * (4 * k), "'" + "y z" * k + "'", "a" + " a" * k, "1" * 12 + "," * k, "(" * k + ")" * k, "a." * k + "b", "- " * k + "1", "''" * k]:
                out.append(call(d, "CREATE TABLE t (aa %s DEFAULT (%s), b %s);" % (ty, x, ty)))
            out.append(call(d, "CREATE TABLE t (aa %s DEFAULT '%s', b %s DEFAULT 1);" % (ty, "lorem ''ipsum'' " * (k // 4), ty)))
            out.append(call(d, "CREATE TABLE t (%s);" % ", ".join("c%d %s DEFAULT %d" % (i, ty, i) for i in range(k // 3))))
        cv = clause_variants(g, 2)
        for _, vs in cv:
            for v in vs:
                for _ in range(4):
                    dv = [kw("DEFAULT")] + ([g.literal()] if rng.random() < 0.7 else g.group())
                    if v[0].s != "DEFAULT":
                        out.append(call(d, layout.plain(column_probe(g, [v, dv]))))
                        out.append(call(d, layout.plain(column_probe(g, [dv, v]))))
        for _ in range(c.n(600)):
            i = rng.choice(["%d" % rng.randrange(10 ** rng.randrange(1, 10)), "%d.%d" % (rng.randrange(1000), rng.randrange(10 ** 5)),
                            "%d.%de%d" % (rng.randrange(10), rng.randrange(10 ** 4), rng.randrange(-30, 30)),
                            "%de%s%d" % (rng.randrange(1000), rng.choice(["", "+", "-"]), rng.randrange(60))])
            out.append(call(d, "CREATE TABLE t (aa %s DEFAULT %s);" % (ty, rng.choice(["", "-", "+"]) + i)))
        for _ in range(c.n(250)):
            i = "".join(rng.choice("0123456789") for _ in range(rng.randrange(14, 40)))
            if rng.random() < 0.5:
                k = rng.randrange(1, len(i))
                i = i[:k] + "." + i[k:]
            if rng.random() < 0.4:
                i += "e%d" % rng.choice([rng.randrange(-60, 60), rng.randrange(-340, 300)])
            i = rng.choice(["", "", "-", "+"]) + i
            out.append(call(d, "CREATE TABLE t (aa %s DEFAULT %s);" % (ty, i)))
        for _ in range(c.n(60)):                # between two neighbouring floats
            f = math.ldexp(rng.random() + 1, rng.randrange(-70, 90))
            m = decimal.Decimal(f) + decimal.Decimal(math.ulp(f)) / 2
            i = format(m, "f")
            i = rng.choice([i, i + "1" if "." in i else i + ".1", i[:-1] + str(max(0, int(i[-1]) - 1)), i + "0" if "." in i else i])
            out.append(call(d, "CREATE TABLE t (aa %s DEFAULT %s);" % (ty, i)))
        for s in ODD + PLAIN + NUMS:
            for q in STRQ[d]:
                out.append(call(d, "CREATE TABLE t (aa %s DEFAULT %s NOT NULL);" % (ty, quote(s, q))))
        for t in g.sentences(c.n(150), 24):
            out.append(call(d, style(t, rng, d)))
    return out


# ---------------------------------------------------------------------------
# sentences emitted by the specification itself

def recased(words, rng):
    r = rng.random()
    if r < 0.7:
        return words
    f = (str.lower if r < 0.85 else str.capitalize if r < 0.92 else
         lambda w: "".join(rng.choice((x.lower(), x)) for x in w))
    return [f(w) if w.isupper() and w[0].isalpha() else w for w in words]


def spelled(words, rng, lines=False):
    words = recased(words, rng)
    r = rng.random()
    if lines and r < 0.7:
        return "".join(w + rng.choice(["\n", "\n", "\n", " ", "\n\n", "\r\n", "/*\n*/", "--\n"]) for w in words)
    if r < 0.6:
        return " ".join(words)
    if r < 0.8:
        return "\n".join(words)
    return "".join(w + rng.choice([" ", " ", "\n", "  ", "\t", " /* c */ ", "\r\n"]) for w in words)


KINDS = ["nm", "'s'", '"q"', "7", "-7", "+7", "0", "1.5", "1e3", "+", "*", "BEGIN", "(", ")", ",", ".", ";", "="]


class Machine:
    """the configurations and transitions of the parser machine, as explored by TLC"""
    def __init__(self, walk):
        self.at = {(w["d"], w["at"]): w for w in walk}
        self.walk = walk

    def moves(self, w, rng, names=1, inside=8):
        """the transitions of a configuration; of those that read a name, or any token inside brackets or a
        skipped statement, a few only"""
        if len(w["next"]) > 150:
            some = [x for x in w["next"] if x["unit"][0] in ("(", ")", ";", "BEGIN", "END")]
            return some + rng.sample(w["next"], inside)
        named = set(x["to"] for x in w["next"] if x["unit"] == ["nm"])
        out = [x for x in w["next"] if x["to"] not in named or x["unit"][0] in ("nm", '"q"', "`q`")]
        other = [x for x in w["next"] if x["to"] in named and x["unit"][0] not in ("nm", '"q"', "`q`")]
        return out + rng.sample(other, min(names, len(other)))

    def target(self, w, x):
        return self.at.get((w["d"], x["to"]))


def some(rng, xs, limit):
    return xs if len(xs) <= limit else rng.sample(xs, limit)


def walk_right(c, walk, limit):
    """every transition of the machine, then every pair of consecutive transitions, completed to texts it accepts"""
    rng, m = c.rng, Machine(walk)
    one = [(w["d"], w["prefix"] + x["unit"] + x["finish"]) for w in walk for x in w["next"]]
    two = []
    for w in walk:
        for x in m.moves(w, rng):
            t = m.target(w, x)
            for y in m.moves(t, rng, inside=2) if t else ():
                two.append((w["d"], w["prefix"] + x["unit"] + y["unit"] + y["finish"]))
    out = some(rng, one, limit)
    out += some(rng, two, limit - len(out))
    return [call(d, spelled(ws, rng)) for d, ws in out]


def refused(w, words):
    """those of the words, alone or after NOT, that the machine refuses in configuration w"""
    ok = set(x["unit"][0].upper() for x in w["next"] if len(x["unit"]) == 1)
    notok = set(x["unit"][1].upper() for x in w["next"] if len(x["unit"]) == 2)
    for v in words:
        if v.upper() not in ok and v != "NOT":
            yield [v]
        if notok and v.upper() not in notok and v != "NOT":
            yield ["NOT", v]
    if not notok and "nm" in words:
        yield ["NOT", "NULL"]


def phrases(d):
    """pieces of text that are whole somewhere"""
    ty = "TEXT" if d == "SQLite" else "INT"
    out = ["( x1 )", "( x1 , x2 )", ", x1", ", x1 T", "x1 T", ", x1 T , x2 T", ". x1", "x1 . x2", "NOT NULL", "NULL", "UNIQUE", "PRIMARY KEY",
           "DEFAULT 1", "CHECK ( x1 )", "REFERENCES x1", "REFERENCES x1 ( x2 )", "CONSTRAINT x1", "CONSTRAINT x1 UNIQUE", ", UNIQUE ( x1 )",
           ", PRIMARY KEY ( x1 )", ", CHECK ( x1 )", ", FOREIGN KEY ( x1 ) REFERENCES x2 ( x3 )", ", CONSTRAINT x1 UNIQUE ( x2 )",
           "ON DELETE CASCADE", "ON UPDATE SET NULL", "MATCH FULL", "DEFERRABLE", "COLLATE x1", "= 1", "= x1", "( 3 )", "( 3 , 2 )", "( )",
           ") ;", ") ; CREATE TABLE x1 ( x2 T ) ;", "; CREATE TABLE x1 ( x2 T ) ;", "CREATE TABLE x1 ( x2 T ) ;", ";", ") )", "IF NOT EXISTS",
           "BEGIN x1 ; END", "AS ( x1 )", "GENERATED ALWAYS AS ( x1 )", "USING x1", "COMMENT 's'", "ASC", "DESC", "AUTO_INCREMENT", "KEY",
           "WITH ( x1 )", "WITHOUT ROWID", "STRICT", "TABLESPACE x1", "1 2", "'s' 't'", "UNSIGNED", "ON CONFLICT FAIL", "- 1", "+ 1",
           "CREATE VIEW x1 AS 1 ;", "/* x */ /", "-", "- -", "* /", "INITIALLY DEFERRED", "NOT", "NOT NOT", "END", "END ;", ", ,", "TEMP", "TABLE x1"]
    return [typed(x, ty).split() for x in out]


def walk_wrong(c, walk, limit, lines=False):
    """every configuration of the machine followed by a token it refuses, inserted or in place of one it accepts:
    all kinds of tokens in each configuration and after each transition, then keywords; and whole phrases"""
    rng, m = c.rng, Machine(walk)
    first, second, third, fourth, fifth = [], [], [], [], []
    for w in walk:
        d, p = w["d"], w["prefix"]
        kinds = KINDS + (["`q`"] if d != "PostgreSQL" else [])
        moves = m.moves(w, rng)
        ends = {tuple(x["finish"]): x["finish"] for x in moves}
        ends = some(rng, sorted(ends.values()), 5) + [w["finish"]]
        first.append((d, p))
        for e in ends:                                    # a token left out
            first.append((d, p + e))
        for v in refused(w, kinds):
            for e in ends:
                first.append((d, p + v + e))
        for v in refused(w, c.spec.words[d]):
            third.append((d, p + v + rng.choice(ends)))
        for x in moves:                                   # an accepted token inserted
            for e in some(rng, ends, 3):
                first.append((d, p + x["unit"] + e))
        for x in moves:                                   # an accepted word misspelt
            u = x["unit"][-1]
            if u.isupper() and len(u) > 1:
                i = rng.randrange(len(u))
                for v in (u + "S", u + "_", rng.choice([u + "1", u[:-1], u[1:], "_" + u, u + u[-1], u[:i] + u[i + 1:], u[:i] + u[i] + u[i:], "X" + u, "S" + u, u + "X", u + "D"])):
                    if v:
                        fifth.append((d, p + x["unit"][:-1] + [v] + x["finish"]))
        # inside brackets and skipped statements little is refused
        for v in phrases(d) if len(w["next"]) < 150 or d == "SQLite" and len(w["next"]) < 60 else some(rng, phrases(d), 20):
            fourth.append((d, p + v + w["finish"]))
            fourth.append((d, p + v + rng.choice(ends)))
        for x in moves:
            t = m.target(w, x)
            if t and len(t["next"]) <= 150:
                tm = m.moves(t, rng)
                for v in refused(t, kinds):
                    e = rng.choice(tm)["finish"] if tm and rng.random() < 0.8 else t["finish"]
                    second.append((d, p + x["unit"] + v + e))
                for y in some(rng, tm, 6):                # two tokens left out
                    fourth.append((d, p + y["finish"]))
                for v in some(rng, phrases(d), 6):
                    fourth.append((d, p + x["unit"] + v + t["finish"]))
    out = some(rng, first, limit // 4)
    out += some(rng, fourth, limit // 2)
    out += some(rng, fifth, limit // 8)
    out += some(rng, second, (limit - len(out)) * 2 // 3)
    out += some(rng, third, limit - len(out))
    if lines:
        out = [(d, again(ws, ["x9", "9", ")", ",", "ON"], rng) if len(ws) > 3 and rng.random() < 0.4 else ws) for d, ws in out]
    return [call(d, spelled(ws, rng, lines)) for d, ws in out]


def walk_related(c, walk, limit, vary):
    """every transition and pairs of them, completed; each text in its plain form and in forms related to it"""
    rng, m, out = c.rng, Machine(walk), []
    seqs = []
    for w in walk:
        for x in m.moves(w, rng):
            seqs.append((w["d"], w["prefix"] + x["unit"] + x["finish"]))
            t = m.target(w, x)
            ys = m.moves(t, rng, inside=2) if t else []
            for y in some(rng, ys, 4):
                seqs.append((w["d"], w["prefix"] + x["unit"] + y["unit"] + y["finish"]))
    for d, ws in some(rng, seqs, limit // 3):
        i = len(out)
        out.append(call(d, " ".join(ws)))
        for s in vary(d, ws):
            out.append(call(d, s, base=[i]))
    return out


def glued(words, rng, d):
    """the words with fillers of all kinds between them"""
    toks = [Tok(w, "sym" if w in SYMBOLS else "kw") for w in words]
    r = rng.random()
    return layout.tight(toks) if r < 0.2 else layout.loose(toks, rng, d, rng.choice([0.3, 0.7, 1.0]))


def walk_P10(c, walk, limit):
    return walk_related(c, walk, limit, lambda d, ws: [glued(ws, c.rng, d), glued(ws, c.rng, d)])


def walk_P12(c, walk, limit):
    rng = c.rng

    def vary(d, ws):
        up = [w.upper() in c.spec.words[d] and w == w.upper() and w not in ("E", "NN") for w in ws]
        yield " ".join(w.lower() if u else w for w, u in zip(ws, up))
        yield " ".join("".join(rng.choice((x.lower(), x)) for x in w) if u else w for w, u in zip(ws, up))
    return walk_related(c, walk, limit, vary)


def walk_P13(c, walk, limit):
    """each text of the machine in front of and behind another"""
    rng, out = c.rng, []
    by = {d: [] for d in DIALECTS}
    for x in walk_related(c, walk, limit * 2, lambda d, ws: []):
        by[x["d"]].append(x)
    for d in DIALECTS:
        xs = by[d]
        first = len(out)
        out += xs
        ys = list(range(len(xs)))
        rng.shuffle(ys)
        for i, j in zip(range(len(xs)), ys):
            a, b = xs[i]["s"], xs[j]["s"]
            if not a.endswith(";"):
                a += " ;"
            out.append(call(d, a + rng.choice(["\n", " ", "", "/**/"]) + b, base=[first + i, first + j]))
    return out


WRITTEN_NAMES = ["t", "T2", "s1", "s", "r", "y", "x", "aa", "bb", "c1", "c2", "c3", "k1", "tb", "ts", "i", "z", "ix", "k9"]


def renamed(g, words):
    """the names of a written text replaced by others, mostly one for one"""
    m = {n: g.name().s for n in WRITTEN_NAMES}
    if g.rng.random() < 0.15:
        m = dict.fromkeys(m, g.name().s)
    return [m.get(w, w) for w in words]


def written(c, vals, limit):
    """texts written by module Meaning, a part of them with other names or together with others"""
    if len(vals) > limit:
        vals = c.rng.sample(vals, limit)
    out, last = [], {}
    gens = {d: Gen(c.spec, d, c.rng, odd=0.1) for d in DIALECTS}
    for v in vals:
        ws, d, r = v["words"], v["d"], c.rng.random()
        if r < 0.3:
            ws = renamed(gens[d], ws)
        elif r > 0.88 and last.get(d, [""])[-1] == ";":
            ws = last[d] + ws
        last[d] = v["words"]
        out.append(call(d, spelled(ws, c.rng)))
    return out


def company(c, calls, share=0.1):
    """some of the texts, with another in front"""
    out = []
    for d in DIALECTS:
        xs = [x["s"] for x in calls if x["d"] == d and len(x["s"]) < 2000]
        ended = [x for x in xs if x.endswith(";") or x.rstrip().endswith(";")]
        if not ended:
            continue
        for s in c.rng.sample(xs, int(len(xs) * share)):
            out.append(call(d, c.rng.choice(ended) + c.rng.choice(["", " ", "\n", "/**/"]) + s))
    return out


# ---------------------------------------------------------------------------
# P19  only syntax is checked

def mixed(c, prop):
    """texts made for other properties; what they return is judged by this one's relation"""
    rng, out = c.rng, []
    others = [p for p in ("P02", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P15", "P17", "P19") if p != prop]
    if prop in ("P01", "P03", "P04"):
        others += ["P03", "P04", "P01"]
        others = [p for p in others if p != prop]
    k, n = (7, 3500) if prop == "P01" else (4, 2500)
    for p in rng.sample(others, k) if prop != "P01" else ["P17"] + rng.sample(others, k):
        sub = Ctx(c.spec, rng.randrange(1 << 30), 0.4)
        for x in some(rng, globals()[p](sub), n):
            out.append(call(x["d"], x["s"]))
    return out


def ordinary(c, d):
    """names without a meaning of their own anywhere in the dialect's grammar"""
    g = c.gen(d, odd=0.12)
    words = set(c.spec.words[d])

    def name():
        while True:
            n = g.name()
            if n.s.upper() not in words:
                return n
    return g, name


def renamings(toks, name, rng):
    """the text with other names at the name positions"""
    at = [i for i, t in enumerate(toks) if t.k == "name"]

    def put(m):
        return [m[i] if i in m else t for i, t in enumerate(toks)]
    if not at:
        return
    one = name()
    yield put({i: one for i in at})                                   # all the same
    yield put({i: name() for i in at})                                # others
    m = {t: name() for t in set(toks[i].s for i in at)}               # one for one
    yield put({i: m[toks[i].s] for i in at})
    few = [name() for _ in range(2)]
    yield put({i: rng.choice(few) for i in at})                       # two for all
    i, j = rng.choice(at), rng.choice(at)
    yield put({i: toks[j]})                                           # one as another
    yield put({i: Tok(toks[j].s.swapcase(), "name")})                 # up to case
    at2 = rng.sample(at, len(at))
    yield put({i: toks[k] for i, k in zip(at, at2)})                  # mixed up


WRONG_MEANING = [
    "CREATE TABLE t (aa T, aa T);", "CREATE TABLE t (aa T, AA T, \"q\" T);", "CREATE TABLE t (aa T, b T, aa T, b T, aa T);",
    "CREATE TABLE t (aa T);CREATE TABLE t (aa T);", "CREATE TABLE t (aa T);CREATE TABLE IF NOT EXISTS t (b T);CREATE TABLE s.t (aa T);",
    "CREATE TABLE t (aa T, PRIMARY KEY (zz));", "CREATE TABLE t (aa T, PRIMARY KEY (aa, aa));", "CREATE TABLE t (aa T, UNIQUE (zz, aa, zz));",
    "CREATE TABLE t (aa T PRIMARY KEY, b T PRIMARY KEY);", "CREATE TABLE t (aa T PRIMARY KEY, PRIMARY KEY (aa));",
    "CREATE TABLE t (aa T, PRIMARY KEY (aa), PRIMARY KEY (aa));", "CREATE TABLE t (aa T, PRIMARY KEY (aa), PRIMARY KEY (b), UNIQUE (aa), UNIQUE (aa));",
    "CREATE TABLE t (aa T, UNIQUE (aa), CONSTRAINT n1 UNIQUE (aa), CONSTRAINT n1 UNIQUE (aa), CONSTRAINT n1 PRIMARY KEY (aa), CONSTRAINT n1 CHECK (aa));",
    "CREATE TABLE t (aa T CONSTRAINT n1 UNIQUE, b T CONSTRAINT n1 UNIQUE, CONSTRAINT n1 CHECK (aa));",
    "CREATE TABLE t (aa T REFERENCES t (aa));", "CREATE TABLE t (aa T REFERENCES nowhere (nothing));", "CREATE TABLE t (aa T REFERENCES t);",
    "CREATE TABLE t (aa T, FOREIGN KEY (zz) REFERENCES r (x));", "CREATE TABLE t (aa T, FOREIGN KEY (aa, b) REFERENCES r (x));",
    "CREATE TABLE t (aa T, FOREIGN KEY (aa) REFERENCES t (x, y, z));", "CREATE TABLE t (aa T, FOREIGN KEY (aa, aa) REFERENCES r (x, x));",
    "CREATE TABLE t (aa T, FOREIGN KEY (aa) REFERENCES r (x), FOREIGN KEY (aa) REFERENCES r (x));",
    "CREATE TABLE t (aa T, CHECK (zz > 1), CHECK (zz > 1));", "CREATE TABLE t (aa T CHECK (zz), b T CHECK (zz));",
    "CREATE TABLE t (aa T DEFAULT 'x', b T DEFAULT 1.5, cc T DEFAULT TRUE, dd T DEFAULT NULL NOT NULL);", "CREATE TABLE t (aa T NOT NULL DEFAULT NULL);",
    "CREATE TABLE t (aa T, UNIQUE (aa), b T, aa T);", "CREATE TABLE aa (aa T CONSTRAINT aa UNIQUE REFERENCES aa (aa), CONSTRAINT aa PRIMARY KEY (aa));",
    "CREATE TABLE aa.aa (aa T, FOREIGN KEY (aa) REFERENCES aa.aa (aa));", "CREATE TABLE t (t T, PRIMARY KEY (t));",
    "CREATE TABLE t (aa T PRIMARY KEY UNIQUE NOT NULL DEFAULT NULL REFERENCES t (aa) CHECK (0));", "CREATE VIEW t AS 1;CREATE TABLE t (aa T);CREATE INDEX t ON t (t);",
    "CREATE TABLE t (UNIQUE (aa));", "CREATE TABLE t (PRIMARY KEY (aa), FOREIGN KEY (aa) REFERENCES r (x), CHECK (aa));",
    "CREATE TABLE t (UNIQUE (aa), aa T);"]
OWN_MEANING = {
    "SQLite": ["CREATE TABLE t (aa TEXT PRIMARY KEY AUTOINCREMENT, b TEXT PRIMARY KEY AUTOINCREMENT);", "CREATE TABLE t (aa TEXT) WITHOUT ROWID;",
               "CREATE TABLE t (aa TEXT AS (aa) NOT NULL DEFAULT 1);", "CREATE TEMP TABLE main.t (aa TEXT, aa REAL);"],
    "PostgreSQL": ["CREATE TABLE t (aa SERIAL DEFAULT 1, b SERIAL);", "CREATE TABLE t (aa VARCHAR(10) DEFAULT 'longer than ten characters');",
                   "CREATE TABLE t (aa NUMERIC(3,9), b NUMERIC(2000,1000), cc BIT(1) DEFAULT 'x');", "CREATE TABLE t (aa INT NULL PRIMARY KEY);",
                   "CREATE TABLE t (aa INT, EXCLUDE USING gist (zz WITH x));", "CREATE TABLE t (aa TEXT GENERATED ALWAYS AS IDENTITY DEFAULT 1);"],
    "MySQL": ["CREATE TABLE t (aa TEXT AUTO_INCREMENT, b TEXT AUTO_INCREMENT);", "CREATE TABLE t (aa INT NULL PRIMARY KEY);",
              "CREATE TABLE t (aa VARCHAR(1) DEFAULT 'longer', b DECIMAL(3,9), cc TEXT DEFAULT 5);", "CREATE TABLE t (aa INT, KEY kk (zz), KEY kk (zz), INDEX kk (aa));",
              "CREATE TABLE t (aa JSON COLLATE utf8_bin UNIQUE, FULLTEXT KEY (zz));", "CREATE TABLE t (aa INT) ENGINE=nothing, ENGINE=nothing;"]}


def P19(c):
    rng, out = c.rng, []
    for d in DIALECTS:
        g, name = ordinary(c, d)
        tys = ["TEXT", "INTEGER", "NUMERIC"] if d == "SQLite" else ["INT", "TEXT", "VARCHAR(3)", "DATE", "NUMERIC(4,2)"]
        for s in WRONG_MEANING:
            if d == "MySQL":
                s = s.replace('"', "`")
            for ty in tys:
                out.append(call(d, typed(s, ty)))
        for s in OWN_MEANING[d]:
            out.append(call(d, s))
        pool = list(skeletons(g, c.n(220), 20)) + [t for t in g.sentences(c.n(80), 30)]
        cv, tc = clause_variants(g, 2), tcons_variants(g, 3)
        for _ in range(c.n(200)):
            defs = []
            for _ in range(rng.randrange(1, 6)):
                if rng.random() < 0.55:
                    defs.append(g.column(([[kw("CONSTRAINT"), g.name()]] if rng.random() < 0.3 else []) + rng.choice(
                        [[], [], [rng.choice(rng.choice(cv)[1])]])))
                else:
                    x = rng.choice(rng.choice(tc)[1])
                    defs.append(named(g, x, g.name()) if rng.random() < 0.5 and x[0].s.upper() in (
                        "PRIMARY", "UNIQUE", "CHECK", "FOREIGN") else x)
            pool.append(g.table(defs, schema=g.name() if rng.random() < 0.2 else None, ine=rng.random() < 0.2))
        # names that mean something somewhere, at every kind of place
        at_ = [typed(t, tys[0]) for t in
               ["CREATE %s (aa T);", "CREATE s.%s (aa T);", "CREATE %s.t (aa T);", "CREATE t (%s T);", "CREATE t (aa T, %s T, b T);", "CREATE t (aa T CONSTRAINT %s UNIQUE);",
                "CREATE t (aa T REFERENCES %s);", "CREATE t (aa T REFERENCES r (%s));", "CREATE t (aa T, CONSTRAINT %s CHECK (aa));", "CREATE t (aa T, PRIMARY KEY (%s, aa));",
                "CREATE t (aa T, UNIQUE (aa, %s));", "CREATE t (aa T, FOREIGN KEY (%s) REFERENCES %s (%s));"]]
        at_ = [t.replace("CREATE", "CREATE TABLE") for t in at_]
        for w in COMMON:
            if w.upper() in set(c.spec.reserved[d]):
                continue
            for p in rng.sample(at_, 6):
                out.append(call(d, p.replace("%s", rng.choice([w, w, w.upper(), w.capitalize(), quote(w, IDQ[d][0])]))))
            out.append(call(d, at_[3].replace("%s", w)))
        # names like the words of the text around them
        res = set(c.spec.reserved[d])
        for ty in types(g):
            w = ty[0].s
            for n in [w.lower(), w, w.capitalize()] if w not in res else []:
                out.append(call(d, layout.plain(g.table([g.column(type_=ty, name=Tok(n, "name"))] + ([g.column()] if rng.random() < 0.4 else [])))))
            for n in (w, w.lower()):
                q = Tok(quote(n, rng.choice(IDQ[d])), "name")
                out.append(call(d, layout.plain(g.table([g.column(rng.choice([[], [rng.choice(rng.choice(cv)[1])]]), type_=ty, name=q)]))))
        for t in some(rng, pool, c.n(250)):
            at = [i for i, x in enumerate(t) if x.k == "name"]
            ks = [x.s for x in t if x.k == "kw" and x.s.isalpha()]
            for i in some(rng, at, 4):
                k = rng.choice([rng.choice(ks), rng.choice(ks).lower()])
                out.append(call(d, layout.plain(t[:i] + [Tok(quote(k, rng.choice(IDQ[d])), "name")] + t[i + 1:])))
                if k.upper() not in res:
                    out.append(call(d, layout.plain(t[:i] + [Tok(k, "name")] + t[i + 1:])))
        for t in pool:
            # placeholders, all different; then the names
            n = itertools.count(1)
            base = [Tok("Nm%d" % next(n), "name") if x.k == "name" else x for x in t]
            i = len(out)
            out.append(call(d, layout.plain(base)))
            for v in renamings(base, name, rng):
                out.append(call(d, layout.plain(v), base=[i]))
    return out


# ---------------------------------------------------------------------------
# P18  JSON form

def P18(c):
    """what the other corpora have, whose results carry all kinds of values"""
    out, rng = [], c.rng
    for f in (P05, P06, P07, P08, P11, P17):
        out += [call(x["d"], x["s"]) for x in some(rng, f(c), c.n(1500))]
    odd = ["<b>&amp;", "\u2028\u2029", "\\", "\\u0041", "\x7f", "\x01", "/", "\t", "\n", "\r\n", "\u00e9\u65e5\U0001f600", "null", "true",
           "0", "{}", "[]", "[1,2]", '"a"', "\u0130", " ", "", "\ufffd", "\udcff", "x\udce3\udc81"]
    for d in DIALECTS:
        q = "`" if d == "MySQL" else '"'
        for x in odd:
            n, v = q + x.replace(q, q + q) + q, "'" + x.replace("'", "''") + "'"
            if x:
                out.append(call(d, "CREATE TABLE %s.%s (%s TEXT);" % (n, n, n)))
                out.append(call(d, "CREATE TABLE t (aa TEXT, CONSTRAINT %s UNIQUE (%s), CONSTRAINT %s PRIMARY KEY (%s), FOREIGN KEY (%s) REFERENCES %s (%s));" % ((n,) * 7)))
                out.append(call(d, "CREATE TABLE t (aa TEXT CONSTRAINT %s REFERENCES %s (%s));" % (n, n, n)))
            out.append(call(d, "CREATE TABLE t (aa TEXT DEFAULT %s CHECK (%s <> aa), CHECK (%s = aa));" % (v, v, v)))
        for x in ["0", "-0", "1", "-1", "0.1", "1e21", "1e-7", "123456789012345678901234567890", "1.7976931348623157e308",
                  "4.9e-324", "1e400", "9007199254740993", "100", "1e2", "1.0", "NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP"]:
            out.append(call(d, "CREATE TABLE t (aa TEXT DEFAULT %s, bb TEXT DEFAULT %s NOT NULL);" % (x, x)))
    return out


# ---------------------------------------------------------------------------
# P14  entry points

ENTRIES = list(DIALECTS) + ["direct:" + d for d in DIALECTS] + ["Force"]


def P14(c):
    """texts, each to be given to every entry point"""
    rng, out = c.rng, ["", "\n", ";", "'", "/*", "CREATE", "`a`", "# x", "-- x", "/* x */"]
    for d in DIALECTS:
        g = c.gen(d, odd=0.2)
        vocab = vocabulary(c, d)
        for t in skeletons(g, c.n(450), 14):
            out.append(style(t, rng, d))
        for t in g.sentences(c.n(150), 24):
            out.append(style(t, rng, d))
        for t in skeletons(g, c.n(250), 12):
            out.append(style(mutate(t, rng, vocab) or t, rng, d))
            out.append(corrupt(style(t, rng, d), rng))
        for t in skeletons(g, c.n(80), 10):          # wrong for every dialect, at different places
            out.append(layout.lines(t) + "CREATE TABLE zz (aa " + rng.choice(["TEXT", "INT", "NONE", "SERIAL", "TINYTEXT"]) + rng.choice([",", ") )", " UNIQUE UNIQUE);", ""]))
        for w in c.spec.words[d]:
            out.append("CREATE TABLE t (aa %s);" % w)
            out.append("CREATE TABLE t (aa TEXT %s);" % w)
            out.append("CREATE %s x;" % w)
        for w in sorted(c.spec.reserved[d]):
            out.append("CREATE TABLE t (%s TEXT);" % w.lower())
        # accepted by several dialects, with different tables: quotes, numbers, keywords
        for x in ["'a'", '"a"', "`a`", "1", "-1.5", "TRUE", "(aa + b)", "(`a`)", "(# x\n)", "('#')", "(aa # b)", "NULL"]:
            for ty in ["TEXT", "INTEGER", "NUMERIC", "NUMERIC(3,2)", "VARCHAR(3)", "REAL", "none", "Serial", "year"]:
                out.append("CREATE TABLE t (aa %s DEFAULT %s);" % (ty, x))
        for q in "\"'`":
            for p in ["CREATE TABLE %s (aa TEXT);", "CREATE TABLE t (%s TEXT);", "CREATE TABLE t (aa TEXT, UNIQUE (%s));", "CREATE TABLE t (aa TEXT COLLATE %s);"]:
                out.append(p % (q + "x y" + q))
                out.append(p % (q + "x y" + q) + "\nCREATE TABLE u (b INT);")
        for s in big_texts(c, d)[:4]:
            out.append(s)
    return list(dict.fromkeys(x for x in out if len(x) < 20000))


# P16  sessions

def P16(c):
    """calls that are easily confused with each other"""
    rng, texts = c.rng, []

    def add(s, ds=None):
        for d in ds or [rng.choice(ENTRIES)]:
            texts.append({"d": d, "s": s})
    for d in DIALECTS:
        ty = "TEXT" if d == "SQLite" else "INT"
        g = c.gen(d, odd=0.2)
        vocab = vocabulary(c, d)
        mine = [d, "direct:" + d]
        for t in skeletons(g, c.n(40), 16):
            s = style(t, rng, d)
            add(s, [d])
            add(s)
            add(style(mutate(t, rng, vocab) or t, rng, d), mine[:1])
            add(corrupt(s, rng), mine[:1])
            add(layout.plain(layout.recase(t, rng, "random")), mine[:1])
        # same length, same beginning, same end, different content
        for a, b in itertools.product(["t1", "t2", "T1"], ["c1", "c2"]):
            add("CREATE TABLE %s (%s %s);" % (a, b, ty), [d])
            add("CREATE TABLE %s (%s %s, %s %s UNIQUE);" % (a, b, ty, "d1", ty), [d])
        for x in ["1", "2", "'1'", "NULL", "TRUE", "(1)", "-1"]:
            add("CREATE TABLE t (aa %s DEFAULT %s);" % (ty, x), mine)
        # a word in quotes, then bare
        for w in rng.sample(sorted(c.spec.reserved[d]), c.n(12)):
            q = rng.choice(IDQ[d])
            add("CREATE TABLE %s (aa %s);" % (quote(w, q), ty), [d])
            add("CREATE TABLE %s (aa %s);" % (w, ty), [d])
            add("CREATE TABLE t (%s %s, b %s);" % (quote(w.lower(), q), ty, ty), [d])
            add("CREATE TABLE t (%s %s, b %s);" % (w.lower(), ty, ty), [d])
        # words reserved in one dialect only, in every dialect
        only = sorted(c.spec.reserved[d] - set().union(*[c.spec.reserved[e] for e in DIALECTS if e != d]))
        for w in rng.sample(only, min(len(only), c.n(6))):
            for e in DIALECTS:
                add("CREATE TABLE %s (aa TEXT);" % w, [e])
        # constraints that must not stick to the next column, table or call
        for k in ["PRIMARY KEY", "UNIQUE", "NOT NULL", "DEFAULT 3", "CHECK (aa)", "CONSTRAINT n UNIQUE", "REFERENCES r (x)", ""]:
            add("CREATE TABLE t (aa %s %s);" % (ty, k), [d])
            add("CREATE TABLE t (aa %s %s, b %s)" % (ty, k, ty), [d])
        for k in ["PRIMARY KEY (aa)", "UNIQUE (aa)", "CHECK (aa)", "FOREIGN KEY (aa) REFERENCES r (x)", "CONSTRAINT n UNIQUE (aa)"]:
            add("CREATE TABLE t (aa %s, %s);" % (ty, k), [d])
        for s in ["", "'", "/*", "CREATE", "CREATE TABLE t (aa %s" % ty, "\n\n\nCREATE TABLE t (aa x);", "CREATE TABLE t (aa x);", "CREATE VIEW v",
                  "CREATE TRIGGER gg BEGIN", "\n`"]:
            add(s, [d])
        for s in rng.sample(big_texts(c, d), 4):
            add(s, [d])
            add(s[:-1], [d])
    for s in ["CREATE TABLE t (aa TEXT);", "CREATE TABLE t (aa INTEGER DEFAULT 'x', UNIQUE (aa));", "CREATE TABLE t (aa NONE);", "CREATE TABLE t (aa INT);",
              "CREATE TABLE t (aa TINYINT);", "CREATE TABLE t (aa SERIAL);", "CREATE TABLE `t` (aa TEXT);", "CREATE TABLE t (aa TEXT DEFAULT \"x\");", "CREATE TABLE t (aa",
              "CREATE TABLE t (aa TEXT) # x\n;"]:
        add(s, ENTRIES)
    seen, out = set(), []
    for t in texts:
        k = (t["d"], t["s"])
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


def P16_cover(c):
    """texts that together take the library through every clause and keyword"""
    rng, out = c.rng, []
    for d in DIALECTS:
        for t in covering(c, d):
            out.append({"d": d, "s": layout.plain(t)})
        for w in rng.sample(sorted(c.spec.reserved[d]), 25):
            out.append({"d": d, "s": "CREATE TABLE t (aa %s, %s %s);" % (("TEXT" if d == "SQLite" else "INT",) + (w, w))})
        for w in ["DATE", "INT", "TEXT", "x"]:
            out.append({"d": d, "s": "CREATE TABLE t (aa %s DEFAULT 'q', ab %s NOT NULL);" % (w, w)})
    return out


def P16_many(c):
    """thousands of different short calls"""
    rng, out = c.rng, []
    words = sorted(set().union(*c.spec.reserved.values()) | set(w for d in DIALECTS for w in c.spec.words[d] if w.isidentifier()))
    for w in words:                            # one word as a name and as a type, in every dialect
        for d in DIALECTS:
            ty = "TEXT" if d == "SQLite" else "INT"
            for x, places in ((w.lower(), ["CREATE TABLE %s (aa T);", "CREATE TABLE t (%s T);", "CREATE TABLE t (aa T, UNIQUE (%s));"]),
                              (rng.choice([w, w.capitalize(), w.lower()]), ["CREATE TABLE t (aa %s);", "CREATE TABLE t (aa T %s);", "CREATE TABLE t (%s T);"])):
                out.append({"d": d, "s": rng.choice(places).replace(" T", " " + ty).replace(ty + "ABLE", "TABLE").replace("%s", x)})
    for i in range(c.n(3000)):
        d = rng.choice(ENTRIES)
        ty = "TEXT" if "SQLite" in d or d == "Force" else "INT"
        tail = rng.choice(["", "", " NOT NULL", " DEFAULT %d" % i, " UNIQUE", " CHECK (x%d > 1)" % i, " REFERENCES r%d (y)" % i, " x", ",", " DEFAULT 's%d'" % i])
        out.append({"d": d, "s": "%sCREATE TABLE t%d (c%d %s%s);" % ("\n" * (i % 3), i, rng.randrange(9), ty, tail)})
    return out


def plan(rng, n, calls):
    """one client: calls in an order that brings every pair of neighbours about, results spoilt in between"""
    ops = []
    while len(ops) < calls:
        r = rng.random()
        k = rng.randrange(n)
        if r < 0.45:
            ops.append(k)
        elif r < 0.6:                                   # the same again
            ops += [k, k]
        elif r < 0.8:                                   # neighbours in the list are alike
            j = max(0, min(n - 1, k + rng.choice([-2, -1, 1, 2])))
            ops += rng.choice([[k, j], [k, j, k], [j, k, j, k]])
        else:
            ops += [k, -k - 1, k]
    return ops
