"""Sentences of the specification's grammar.

The grammar tables are those of spec/Grammar.tla, dumped by TLC (spec/Dump.tla).  A sentence is a
list of tokens; rendering it as text is a separate step (layout.py), so that layout, letter case and
corruption are independent dimensions.  Nothing here decides what a text means: the oracle is the
specification, evaluated by TLC on the recorded text.
"""
import json
import random

DIALECTS = ("SQLite", "PostgreSQL", "MySQL")
IDQ = {"SQLite": '"`', "PostgreSQL": '"', "MySQL": '`'}
STRQ = {"SQLite": "'", "PostgreSQL": "'", "MySQL": "'\""}
SYMBOLS = set("(),.;=")


class Tok:
    """kind: kw, sym, name, str, num, word (inside expressions)"""
    __slots__ = ("s", "k", "neutral")

    def __init__(self, s, k, neutral=False):
        self.s, self.k, self.neutral = s, k, neutral

    def __repr__(self):
        return "%s:%s" % (self.k, self.s)


def kw(s):
    return Tok(s, "sym" if s in SYMBOLS else ("num" if s.isdigit() else "kw"))


def quote(content, q):
    return q + content.replace(q, q + q) + q


class Spec:
    def __init__(self, path):
        d = json.load(open(path))
        self.grammar = d["grammar"]
        self.reserved = {k: set(v) for k, v in d["reserved"].items()}
        self.cost = {d: self._costs(d) for d in DIALECTS}
        self.words = {d: sorted(self._words(self.grammar[d])) for d in DIALECTS}
        self._number()

    # every choice point gets a stable number, for coverage accounting
    def _number(self):
        n = [0]

        def alts(as_):
            for a in as_:
                a["id"] = n[0]
                n[0] += 1
                for s in a["r"]:
                    if s["k"] == "alts":
                        alts(s["a"])
        for d in DIALECTS:
            for nt in sorted(self.grammar[d]):
                alts(self.grammar[d][nt])
        self.nalts = n[0]

    def alt_ids(self, dialect):
        ids = []

        def alts(as_):
            for a in as_:
                ids.append(a["id"])
                for s in a["r"]:
                    if s["k"] == "alts":
                        alts(s["a"])
        for nt in sorted(self.grammar[dialect]):
            alts(self.grammar[dialect][nt])
        return ids

    def neutral(self, as_, a):
        """a may be left out (there is an empty alternative) and has no semantic action"""
        return not any(s["k"] in ("do", "tag") and s["n"] not in ("names0", "nameadd") and s["k"] == "do"
                       for s in self._flat(a["r"])) and any(not b["r"] for b in as_)

    def _flat(self, r):
        for s in r:
            yield s
            if s["k"] == "alts":
                for a in s["a"]:
                    yield from self._flat(a["r"])

    def _words(self, node):
        out = set()
        if isinstance(node, dict):
            if node.get("k") == "kw":
                out |= set(node["w"])
            for v in node.values():
                out |= self._words(v)
        elif isinstance(node, list):
            for v in node:
                out |= self._words(v)
        return out

    def _costs(self, d):
        g = self.grammar[d]
        INF = 10 ** 6
        nt = {n: INF for n in g}

        def sym(s):
            k = s["k"]
            if k == "nt":
                return nt[s["n"]]
            if k == "alts":
                return min(rhs(a["r"]) for a in s["a"])
            if k in ("do", "tag"):
                return 0
            return 3 if k == "par" else (2 if k == "skip" else 1)

        def rhs(r):
            return min(INF, sum(sym(s) for s in r))
        for _ in range(60):
            for n in g:
                nt[n] = min(rhs(a["r"]) for a in g[n])
        self._rhs = rhs
        return {"nt": nt, "rhs": rhs}


PLAIN = ["a", "b", "c", "id", "x1", "_", "_a", "tbl", "users", "user_id", "Name", "camelCase", "T9",
         "created_at", "zz", "col_2", "UPPER_X", "q__q", "e5", "n0", "default_x", "primary_k",
         "nulls_x", "check1", "x_unique"]
COMMON = ("rowid _rowid_ oid ctid xmin xmax tableoid cmin sqlite_master sqlite_sequence sqlite_autoindex_x sqlite_ pg_catalog pg_class pg_temp pg_ "
          "information_schema mysql sys performance_schema main public dbo dual excluded inserted deleted new old this self super none "
          "nil undefined unknown void id ID Id uid uuid guid name title email password status state kind data value val code level total amount price cost "
          "qty quantity rate tax address phone city country zip url uri path file image body content note memo remark description summary "
          "lang locale currency first_name last_name created_by created_on updated_at deleted_at is_active is_deleted has_x flag enabled active "
          "parent parent_id child children root leaf node left_id right_id prev next pos position rank sort_order seq seqno version revision lock "
          "token session session_id account customer customers orders order_id product products item items category tag tags post posts comment_id "
          "test tests foo bar baz hoge tmp temp_x log logs history audit config setting settings param params attr attrs prop props meta info "
          "year month day hour minute second date_x time_x timestamp_x start stop begin_x end_x due since until min max avg sum count len length size "
          "width height depth weight lat lng lon x y z i j k n m t u v w true_x false_x null_x nan inf e1 e10 x0 b1 o7 0x").split()[:-1]
ODD = ["", " ", "a b", "select", "TABLE", "CHECK", "primary key", "it's", 'say "hi"', "back`tick", "--x",
       "/* c */", "/*", "*/", ";", ");", ",", ".", "(", ")", "=", "#h", "a.b", "x\ny", "\t", "é", "日本語",
       "　", "😀", "''", '""', "``", "'", '"', "`", "1", "1.5", "NULL", "-- \n", "\\", "a\\'b", "%", "$1",
       "CREATE TABLE z (a TEXT);", "\r\n", "A" * 70, "<EOF>", "CONSTRAINT", "END", "BEGIN", "0"]
NUMS = ["0", "1", "2", "10", "42", "255", "007", "+5", "-1", "-17", "3.14", "-0.5", "+2.50", "0.0", "1e3",
        "1E5", "2.5e-3", "1e+10", "100", "99999", "-0", "123456789012345", "1.000001", "12.340", "0.001"]
AFFIXES = ["pk", "fk", "uk", "uq", "ck", "ix", "idx", "key", "pkey", "fkey", "id", "seq", "tmp", "old", "new", "no", "is", "default",
           "check", "unique", "primary", "not", "null", "references", "table", "create", "constraint", "at", "name", "1", "_"]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
SIZES = ["1", "2", "3", "8", "10", "16", "20", "32", "38", "50", "64", "100", "127", "255", "256", "1000",
         "4000", "65535", "2147483647", "+7", "0010", "9223372036854775807"]
OPS = ["+", "-", "*", "/", "<", ">", "<=", ">=", "<>", "!=", "||", "%", "&", "|", "~", "::", "->", "->>",
       "@>", ":=", "?"]
EXPRWORDS = ["AND", "OR", "NOT", "NULL", "IS", "IN", "BETWEEN", "LIKE", "CASE", "WHEN", "THEN", "ELSE",
             "END", "BEGIN", "SELECT", "x", "y", "price", "Total", "length", "lower", "CHECK", "DEFAULT",
             "PRIMARY", "KEY", "UNIQUE", "REFERENCES", "CREATE", "TABLE", "a1", "_z", "日本", "CONSTRAINT",
             "COLLATE", "interval", "cast", "AS", "AUTO_INCREMENT", "AUTOINCREMENT"]


class Gen:
    def __init__(self, spec, dialect, rng, odd=0.15, budget=40):
        self.spec, self.d, self.rng = spec, dialect, rng
        self.g = spec.grammar[dialect]
        self.cost = spec.cost[dialect]
        self.hits = {}          # alternative id -> times taken
        self.used = {}          # keyword -> times emitted
        self.odd = odd
        self.budget0 = budget
        self.greedy = 0.75      # how often the least used alternative is preferred
        self.only = None        # optional filter (nt name, alternative) -> bool
        self.foreign = [w.lower() for w in sorted(set().union(*spec.reserved.values())
                        - spec.reserved[dialect]) if w.replace("_", "a").isalnum()
                        and w[0].isalpha()]
        self.nseq = 0

    # --- terminals -------------------------------------------------------
    def name(self):
        r = self.rng.random()
        if r < self.odd:
            return Tok(quote(self.rng.choice(ODD), self.rng.choice(IDQ[self.d])), "name")
        if r < self.odd + 0.1:
            return Tok(quote(self.rng.choice(PLAIN), self.rng.choice(IDQ[self.d])), "name")
        if r < self.odd + 0.16 and self.foreign:
            return Tok(self.rng.choice(self.foreign), "name")
        while True:
            n = self.rng.choice(PLAIN if self.rng.random() < 0.6 else COMMON)
            if self.rng.random() < 0.4:
                n = n + str(self.rng.randrange(1000))
            r = self.rng.random()
            if r < 0.12:
                n = self.rng.choice([a for a in AFFIXES if not a[0].isdigit()]) + "_" + n
            elif r < 0.24:
                n = n + "_" + self.rng.choice(AFFIXES)
            r = self.rng.random()
            if r < 0.2:
                n = n.upper()
            elif r < 0.3:
                n = "".join(self.rng.choice(LETTERS) for _ in range(self.rng.choice([1, 2, 3, 5, 8, 13])))
            if n.upper() not in self.spec.reserved[self.d]:
                return Tok(n, "name")

    def string(self):
        q = self.rng.choice(STRQ[self.d])
        c = self.rng.choice(ODD if self.rng.random() < 0.4 + self.odd else PLAIN)
        return Tok(quote(c, q), "str")

    def number(self):
        return Tok(self.rng.choice(NUMS), "num")

    def literal(self):
        r = self.rng.random()
        if r < 0.35:
            return self.number()
        if r < 0.65:
            return self.string()
        return Tok(self.rng.choice(["NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE",
                                    "CURRENT_TIMESTAMP"]), "kw")

    def size(self):
        return Tok(self.rng.choice(SIZES), "num")

    def atom(self):
        r = self.rng.random()
        if r < 0.34:
            return Tok(self.rng.choice(EXPRWORDS), "word")
        if r < 0.5:
            return Tok(self.rng.choice(NUMS), "num")
        if r < 0.7:
            return Tok(self.rng.choice(OPS), "word")
        if r < 0.85:
            return Tok(self.rng.choice(["=", ",", ".", "=", ",", ";"]), "sym")
        q = self.rng.choice("'\"" if self.d == "PostgreSQL" else "'\"`")
        return Tok(quote(self.rng.choice(ODD + PLAIN), q), "str")

    def group(self, n=None):
        """( balanced tokens )"""
        rng = self.rng
        if n is None:
            n = rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 8])
        out = [Tok("(", "sym")]
        depth = 1
        for _ in range(n):
            r = rng.random()
            if r < 0.12:
                out.append(Tok("(", "sym"))
                depth += 1
            elif r < 0.22 and depth > 1:
                out.append(Tok(")", "sym"))
                depth -= 1
            else:
                out.append(self.atom())
        out += [Tok(")", "sym")] * depth
        return out

    def body(self):
        """rest of a skipped statement"""
        rng = self.rng
        out = [self.name()]
        for _ in range(rng.randrange(0, 6)):
            t = self.atom()
            while t.s == ";" or t.s.upper() in ("BEGIN", "END"):
                t = self.atom()
            out.append(t)
        if rng.random() < 0.35:
            out.append(Tok("BEGIN", "kw"))
            for _ in range(rng.randrange(1, 4)):
                for _ in range(rng.randrange(1, 5)):
                    t = self.atom()
                    while t.s.upper() == "END":
                        t = self.atom()
                    out.append(t)
                out.append(Tok(";", "sym"))
                if rng.random() < 0.3:
                    out += [kw("CREATE"), kw("TABLE"), Tok("zz", "name"), kw("("), Tok("a", "name"),
                            kw("TEXT"), kw(")"), kw(";")]
            out.append(Tok("END", "kw"))
        out.append(Tok(";", "sym"))
        return out

    # --- derivation ------------------------------------------------------
    def word(self, ws):
        rng = self.rng
        m = min(self.used.get(w, 0) for w in ws)
        if rng.random() < self.greedy:
            ws = [w for w in ws if self.used.get(w, 0) == m]
        w = rng.choice(ws)
        self.used[w] = self.used.get(w, 0) + 1
        return w

    def pick(self, as_, left, nt=None):
        rng = self.rng
        ok = [a for a in as_ if not (a["r"] and a["r"][0]["k"] == "tag" and a["r"][0]["n"] in self.tags)]
        if self.only:
            ok = [a for a in ok if self.only(nt, a)] or ok
        if len(ok) == 1:
            return ok[0]
        if left <= 0:
            m = min(self.cost["rhs"](a["r"]) for a in ok)
            ok = [a for a in ok if self.cost["rhs"](a["r"]) == m]
        elif rng.random() < self.greedy:
            m = min(self.hits.get(a["id"], 0) for a in ok)
            ok = [a for a in ok if self.hits.get(a["id"], 0) == m]
        return rng.choice(ok)

    def derive(self, syms, budget=None):
        """tokens derived from syms.  Tokens of optional clauses without a semantic action are
        marked neutral: the specification says they do not contribute to the result."""
        self.tags = set()
        left = self.budget0 if budget is None else budget
        out = []
        stack = list(reversed(syms))
        starts = []                     # where open neutral regions begin
        while stack:
            s = stack.pop()
            k = s["k"]
            if k == "endneutral":
                for t in out[starts.pop():]:
                    t.neutral = True
                continue
            if k == "kw":
                out.append(kw(self.word(s["w"])))
            elif k == "name":
                out.append(self.name())
            elif k == "str":
                out.append(self.string())
            elif k == "pos":
                out.append(self.size())
            elif k == "lit":
                out.append(self.literal())
            elif k == "par":
                out += self.group()
            elif k == "skip":
                out += self.body()
            elif k == "tag":
                self.tags.add(s["n"])
            elif k == "do":
                if s["n"] == "column":
                    self.tags = set()
            else:
                as_ = self.g[s["n"]] if k == "nt" else s["a"]
                a = self.pick(as_, left - len(out), s.get("n"))
                self.hits[a["id"]] = self.hits.get(a["id"], 0) + 1
                r = a["r"]
                if r and self.spec.neutral(as_, a):
                    tail = []
                    if r[-1]["k"] == "nt" and r[-1]["n"] == "colcons":
                        r, tail = r[:-1], [r[-1]]
                    starts.append(len(out))
                    stack.extend(reversed(r + [{"k": "endneutral"}] + tail))
                else:
                    stack.extend(reversed(r))
        return out

    def nt(self, name, budget=None):
        return self.derive([{"k": "nt", "n": name}], budget)

    # --- pieces ----------------------------------------------------------
    def semicolon(self, toks):
        """close a statement that may have ended without its optional semicolon"""
        if not toks or toks[-1].s != ";":
            toks = toks + [Tok(";", "sym")]
        return toks

    def statement(self, budget=None):
        return self.semicolon(self.nt("ddl", budget))

    def table(self, defs, opts=None, name=None, ine=False, schema=None):
        out = [kw("CREATE"), kw("TABLE")]
        if ine:
            out += [kw("IF"), kw("NOT"), kw("EXISTS")]
        if schema:
            out += [schema, kw(".")]
        out += [name or self.name(), kw("(")]
        for i, d in enumerate(defs):
            if i:
                out.append(kw(","))
            out += d
        out.append(kw(")"))
        if opts:
            out += opts
        out.append(kw(";"))
        return out

    def column(self, cons=(), name=None, type_=None):
        out = [name or self.name()]
        if type_ is None:
            type_ = self.nt("type", 8) if self.rng.random() < 0.3 else [kw({"SQLite": "TEXT"}.get(self.d, "INT"))]
        out += type_
        for c in cons:
            out += c
        return out

    def alternatives(self, nt):
        return [a for a in self.g[nt] if a["w"]]

    def clause(self, alt, budget=12):
        """one column constraint / option: the alternative without the recursion at its end"""
        r = alt["r"]
        if r and r[-1]["k"] == "nt" and r[-1]["n"] in ("colcons", "refopts", "indexopts"):
            r = r[:-1]
        return self.derive(r, budget)

    def sentences(self, n, budget=None, extra=None):
        """whole texts (one to three statements), coverage guided"""
        for _ in range(n):
            k = self.rng.choice([1, 1, 1, 2, 3])
            out = []
            for _ in range(k):
                out += self.statement(budget)
            yield out

    def coverage(self):
        ids = self.spec.alt_ids(self.d)
        return sum(1 for i in ids if self.hits.get(i)), len(ids)
