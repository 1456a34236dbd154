"""What each property's check runs. Q: the quick tier; else everything is done deeper."""
import os
from check import SEED, THOROUGH, ToolError, Violation

Q = not THOROUGH
X = 1 if Q else 8          # how many times as many random cases in the thorough tier


def small(c, pre, inv, name="small", size=None, stride=1, module="Conform", variant="h", **args):
    """Every small expression TLC enumerates, replayed into the real builder."""
    f = c.gen("GenAst", name, {"SIZE": size or (4 if Q else 5), "PRE": pre})
    a = {"mode": "file", "in": f, "seed": SEED, "stride": stride}
    a.update(args)
    c.conform(name, "ast", a, module, inv, workers=4, variant=variant, mem="8g")


def rnd(c, mode, n, inv, name=None, module="Conform", variant="h", fam="ast", env=None,
        extra="", shift=0, **kw):
    """Random cases of one family."""
    a = {"n": n * X, "seed": SEED * 1000 + shift}
    if mode:
        a["mode"] = mode
    a.update(kw)
    c.conform(name or fam + "_" + (mode or "r") + variant + str(shift), fam, a, module, inv,
              variant=variant, env=env, extra=extra, mem="8g")


def chunks(f, parts):
    """The same job with different seeds, so that TLC instances run side by side."""
    return [lambda i=i: f(shift=i) for i in range(parts)]


def regex_model(c):
    """The specification's residuals against the denotational meaning."""
    f = c.gen("GenAst", "model", {"SIZE": 3, "PRE": 1})
    c.model("MC_Regex", ["ResidualOK", "PositiveOK", "NonEmptyOK"],
            {"ASTS": f, "LEN": 4 if Q else 5})


def m_exprs(c, module, inv, size, env=None, pre=0, **kw):
    """A model over every expression of at most `size`, as TLC enumerates them."""
    f = c.gen("GenAst", "asts" + module, {"SIZE": size, "PRE": pre})
    c.model(module, inv, dict(env or {}, ASTS=f), **kw)


def m_anchored(c):
    c.model("MC_Anchored", ["ResidualOK", "DropOK"], {"SIZE": 4, "LEN": 3 if Q else 5})


def m_utf8(c):
    c.model("MC_Utf8", ["Utf8OK", "LiveOK"])


def m_lookahead(c):
    m_exprs(c, "MC_LookAhead", ["RunsOK"], 2, {"LEN": 4 if Q else 6})


def m_rewrite_la(c):
    m_exprs(c, "MC_RewriteLA", ["AcceptOK", "LengthOK", "AliveOK"], 2, {},
            extra="CONSTRAINT Bounded\n")


def m_rewrite(c):
    m_exprs(c, "MC_Rewrite", ["NullableOK", "PositiveOK", "EmptyOK", "FlagsOK"],
            4 if Q else 5, pre=1)


def m_symderiv(c):
    m_exprs(c, "MC_SymDeriv", ["SymOK", "DisjointOK"], 3 if Q else 4)


def m_relevance(c):
    m_exprs(c, "MC_Relevance", ["CacheExact", "AnswerExact", "Recorded"], 4 if Q else 5,
            {"QS": 2 if Q else 3}, properties=["Ends"])


def m_nextbyte(c):
    m_exprs(c, "MC_NextByte", ["SoundOK", "ForcedOK"], 4 if Q else 5)


def m_engine(c):
    m_exprs(c, "MC_Engine", ["CursorOK", "AnswerOK", "DeadOK"], 2, {"LEN": 2 if Q else 3},
            properties=["Stable", "Memoised"])


def m_hashcons(c):
    c.model("MC_HashCons", ["RefinesOK", "AnswerOK", "ApartOK"], {"LEN": 7 if Q else 9})


def m_trie(c):
    c.model("MC_Trie", ["FactorOK", "LiveOK"], {"SEQ": 2, "MEMBERS": 3 if Q else 4})


def m_json(c):
    c.model("MC_JsonText", ["AgreeOK", "DeadOK"])


def m_compress(c):
    m_exprs(c, "MC_Compress", ["AcceptOK", "AliveOK", "DenseOK", "ClassOK"], 4)


def m_dfa(c):
    m_exprs(c, "MC_Dfa", ["CompleteOK", "FunctionOK"], 3 if Q else 4, {"STEPS": 2},
            properties=["Ends"])


def m_mapast(c):
    f = c.gen("GenTree", "asttrees", {"SIZE": 6 if Q else 8})
    c.model("MC_MapAst", ["OnceOK", "EndOK"], {"TREES": f}, properties=["RefinesOK", "Ends"])


LA = {"env": {"MAXRUN": 8}, "extra": "CONSTRAINT Bounded\n"}
BIG = {"states": 3000, "cost": 3000000}


def m_unary(c):
    c.model("MC_Unary", ["MemberOK", "AliveOK", "EmptyOK"], {"P": 2 if Q else 3})


def m_counts(c):
    c.model("MC_Counts", ["AcceptOK", "LengthOK", "AliveOK"], {"TOP": 2 if Q else 3})


def m_wordsets(c):
    c.model("MC_WordSets", ["MemberOK", "AliveOK"], {"LEN": 4 if Q else 6})


def unary(c, what, inv, n=300, big=100, period=6000, **kw):
    """Progressions of one letter: questions that take many steps to decide."""
    rnd(c, None, n, ["NoPanic"] + inv, fam="unary", module="ConformUnary", what=what, big=big,
        period=period, name="unary_%s_%d" % (what, period), **kw)


def counts(c, inv, n=30, huge=4, **kw):
    """Counts beyond 2^16."""
    rnd(c, None, n, ["NoPanic"] + inv, fam="counts", module="ConformCounts", huge=huge, **kw)


def words(c, inv, n=150, size=400, **kw):
    """Set operations on large finite sets of words."""
    rnd(c, None, n, ["NoPanic"] + inv, fam="words", module="ConformWordSets", size=size, **kw)


def c01(c):
    inv = ["NoPanic", "AcceptOK", "ApiOK"]
    c.run([
        lambda: counts(c, ["AcceptOK", "WholeOK"]),
        lambda: words(c, ["AcceptOK"]),
    ] + [lambda: m_rewrite(c)] + [
        lambda: small(c, 0, inv, api=1),
        lambda: rnd(c, "wide", 250, ["NoPanic", "AcceptOK"], api=1),
        lambda: rnd(c, "trie", 60, inv, api=1, **BIG),
        lambda: rnd(c, "lit", 600, inv, api=1),
        lambda: rnd(c, "positive", 2500, inv, api=1),
        lambda: rnd(c, "positive", 2500, inv, api=1, shift=1),
        lambda: regex_model(c),
    ] + chunks(lambda shift: rnd(c, "all", 2500, inv, api=1, shift=shift), 4))


def c02(c):
    inv = ["NoPanic", "AcceptOK", "DeadOK", "LiveOK", "AcceptedOK"]
    c.run([
        lambda: counts(c, ["AcceptOK", "DeadOK", "WholeOK"]),
    ] + [lambda: m_anchored(c), lambda: m_utf8(c)] + chunks(lambda shift: rnd(c, None, 1500, inv, fam="syntax", module="ConformSyntax",
                                   shift=shift), 5))


def c03(c):
    inv = ["NoPanic", "AcceptOK", "LengthOK", "ApiOK"]

    def pairs():
        f = c.gen("GenAst", "pairs", {"SIZE": 2 if Q else 3, "PRE": 0})
        c.conform("pairs", "la", {"mode": "file", "in": f, "n": 4000 if Q else 30000,
                                  "seed": SEED, "api": 1}, "ConformLA", inv, mem="8g", **LA)
    c.run([
        lambda: m_counts(c),
        lambda: counts(c, ["LengthOK", "AcceptOK", "WholeOK"]),
    ] + [lambda: m_lookahead(c), lambda: m_rewrite_la(c)] + [
        lambda: rnd(c, "long", 40, inv + ["DeadOK"], fam="la", module="ConformLALong",
                    len=1200 if Q else 3000),
        pairs,
        lambda: rnd(c, None, 1000, ["NoPanic", "RawLengthOK", "PossibleOK", "DeadOK"], fam="la",
                    module="ConformLA", raw=1, shift=20, **LA),
        lambda: rnd(c, "all", 1500, ["NoPanic", "NoLookahead"]),
        lambda: rnd(c, "pre", 500, ["NoPanic", "NoLookahead"]),
    ] + chunks(lambda shift: rnd(c, None, 1000, inv, fam="la", module="ConformLA", api=1,
                                 shift=1 + shift, **LA), 6))


def c04(c):
    inv = ["NoPanic", "DeadOK", "LiveOK", "EmptyOK"]
    c.run([
        lambda: m_unary(c),
        lambda: unary(c, "states", ["DeadOK", "EmptyOK"], n=600),
        lambda: unary(c, "states", ["DeadOK", "EmptyOK"], n=100, big=300, period=60000),
        lambda: words(c, ["DeadOK", "EmptyOK"]),
    ] + [lambda: m_rewrite(c), lambda: m_relevance(c)] + [
        lambda: small(c, 0, inv),
        lambda: rnd(c, "pre", 2000, inv),
        lambda: rnd(c, "wide", 250, inv),
        lambda: rnd(c, None, 1000, ["NoPanic", "DeadOK", "LiveOK"], fam="la",
                    module="ConformLA", **LA),
        lambda: rnd(c, "all", 2000, inv, variant="n", shift=100),
    ] + chunks(lambda shift: rnd(c, "all", 2500, inv, shift=shift), 5))


def c05(c):
    inv = ["NoPanic", "AgreeOK", "YesOK", "NoOK"]

    def pairs():
        f = c.gen("GenAst", "pairs", {"SIZE": 3 if Q else 4, "PRE": 0})
        c.conform("pairs", "contain", {"mode": "file", "in": f, "n": 6000 if Q else 60000,
                                       "seed": SEED}, "ConformContain", inv, mem="8g")
    c.run([
        lambda: unary(c, "contain", ["ContainOK"], n=400),
        lambda: unary(c, "contain", ["ContainOK"], n=60, big=300, period=60000),
    ] + [lambda: m_symderiv(c), lambda: m_relevance(c)] + [pairs] +
          chunks(lambda shift: rnd(c, None, 2500, inv, fam="contain", module="ConformContain",
                                   shift=1 + shift), 4) +
          chunks(lambda shift: rnd(c, "syntax", 800, inv, fam="contain",
                                   module="ConformContain", shift=shift), 4))


def c06(c):
    inv = ["NoPanic", "SweepExact", "SweepMonotone", "ZeroRefused", "AfterWork", "LogOK"]
    c.run([
        lambda: m_unary(c),
        lambda: unary(c, "fuel", ["LimitOK"], n=300),
        lambda: unary(c, "fuel", ["LimitOK"], n=60, big=300, period=60000),
    ] + [lambda: m_relevance(c)] + chunks(lambda shift: rnd(c, None, 1200, inv, fam="fuel", module="ConformFuel",
                                   shift=shift), 8))


def c07(c):
    inv = ["NoPanic", "NextByteOK", "LiteralForced"]
    c.run([lambda: m_nextbyte(c)] + [
        lambda: c.conform("lattice", "lattice", {}, "ConformLattice",
                          ["MeetOK", "JoinOK"]),
        lambda: small(c, 0, inv),
        lambda: rnd(c, "pre", 2000, inv),
        lambda: rnd(c, "lit", 600, inv),
        lambda: rnd(c, "wide", 250, inv),
        lambda: rnd(c, "crowd", 200, inv, shift=1),
        lambda: rnd(c, "crowd", 200, inv, shift=2),
        lambda: rnd(c, "lit", 300, inv, variant="n"),
        lambda: rnd(c, None, 1000, ["NoPanic", "NextByteOK"], fam="la", module="ConformLA", **LA),
        lambda: rnd(c, None, 500, ["NoPanic", "NextByteOK"], fam="la", module="ConformLA", raw=1,
                    shift=20, **LA),
    ] + chunks(lambda shift: rnd(c, "all", 2500, inv, shift=shift), 3)
      + chunks(lambda shift: rnd(c, None, 1800, ["NoPanic", "NextByteOK", "ForcedPrefixOK"],
                                 fam="raw", module="ConformRaw", shift=shift), 3))


def c08(c):
    inv = ["NoPanic", "AnswerOK"]

    def scheds():
        a = c.gen("GenAst", "exprs", {"SIZE": 4, "PRE": 1})
        f = c.gen("GenSession", "scheds", {"LEN": 4 if Q else 5})
        c.conform("schedules", "session", {"mode": "file", "in": f, "asts": a, "seed": SEED},
                  "ConformSession", inv, mem="8g")
    c.run([
        lambda: counts(c, ["AcceptOK", "WholeOK"], n=40, huge=20),
    ] + [lambda: m_engine(c)] + [scheds, lambda: rnd(c, "wide", 80, inv, fam="session",
                                                      module="ConformSession", ops=100)] + chunks(lambda shift: rnd(c, None, 1200, inv, fam="session",
                                              module="ConformSession", shift=shift), 7))


def c09(c):
    inv = ["NoPanic", "AcceptOK", "DeadOK", "LiveOK", "ApiOK", "RefusedOK"]
    c.run([lambda: m_json(c)] + chunks(lambda shift: rnd(c, None, 1500, inv, fam="json", module="ConformJson", api=1,
                                   shift=shift), 8))


def c10(c):
    inv = ["NoPanic", "AcceptOK", "DeadOK", "ClassOK"]
    c.run([
        lambda: words(c, ["AcceptOK", "DeadOK"]),
        lambda: words(c, ["AcceptOK", "DeadOK"], variant="n"),
    ] + [lambda: m_compress(c)] + [
        lambda: rnd(c, "wide", 250, inv, map=1),
        lambda: rnd(c, "wide", 250, inv, map=1, shift=1),
        lambda: rnd(c, "wide", 200, inv, map=1, variant="n"),
        lambda: rnd(c, "all", 2000, inv, map=1),
        lambda: rnd(c, "all", 1500, inv, map=1, variant="n"),
        lambda: rnd(c, "pre", 1000, inv, map=1, variant="n"),
        lambda: rnd(c, None, 600, ["NoPanic", "AcceptOK", "LengthOK", "DeadOK"], fam="la",
                    module="ConformLA", variant="n", **LA),
        lambda: rnd(c, None, 1500, ["NoPanic", "NullableOK", "NonEmptyOK"], fam="raw",
                    module="ConformRaw"),
        lambda: rnd(c, "wide", 150, ["NoPanic", "NullableOK", "SameOK", "NonEmptyOK"], fam="raw",
                    module="ConformRaw", **BIG),
    ])


def c11(c):
    inv = ["NoPanic", "AnswerOK"]

    def scheds():
        f = c.gen("GenHash", "scheds", {"LEN": 4 if Q else 5})
        c.conform("schedules", "hash", {"mode": "file", "in": f, "seed": SEED,
                                          "stride": 1 if Q else 5},
                  "ConformHash", inv, mem="8g")
    c.run([lambda: m_hashcons(c)] + [scheds] + chunks(lambda shift: rnd(c, None, 300, inv, fam="hash",
                                              module="ConformHash", shift=shift), 6))


def c12(c):
    inv = ["NoPanic", "NullableOK", "SameOK", "NonEmptyOK"]

    def gen():
        f = c.gen("GenAst", "small", {"SIZE": 4 if Q else 5, "PRE": 1})
        c.conform("small", "raw", {"mode": "file", "in": f, "seed": SEED}, "ConformRaw", inv,
                  mem="8g", workers=4)
    c.run([
        lambda: rnd(c, None, 2, ["NoPanic", "LogOK"], fam="bulk", module="ConformBulk", total=30000),
        lambda: unary(c, "states", ["EmptyOK"], n=300),
        lambda: words(c, ["EmptyOK"]),
    ] + [lambda: m_symderiv(c), lambda: m_rewrite(c)] + [
        gen,
        lambda: rnd(c, "wide", 150, inv, fam="raw", module="ConformRaw", **BIG),
        lambda: rnd(c, None, 1500, inv, fam="raw", module="ConformRaw", variant="n"),
    ] + chunks(lambda shift: rnd(c, None, 2000, inv, fam="raw", module="ConformRaw",
                                 shift=1 + shift), 5))


def c13(c):
    inv = ["NoPanic", "AcceptOK", "DeadOK", "LiveOK"]
    c.run([
        lambda: m_wordsets(c),
        lambda: words(c, ["AcceptOK", "DeadOK"], n=100),
    ] + [lambda: m_trie(c)] + chunks(lambda shift: rnd(c, "trie", 150, inv, shift=shift, states=4000, cost=5000000),
                 8) +
          chunks(lambda shift: rnd(c, None, 14, ["NoPanic", "WideOK", "EmptyOK"], fam="deep",
                                   module="ConformDeep", only="dict", shift=shift), 3))


def c14(c):
    inv = ["NoPanic", "AcceptOK", "DeadOK", "LiveOK", "EmptyOK"]
    c.run([
        lambda: m_unary(c),
        lambda: unary(c, "pre", ["AcceptOK", "DeadOK", "EmptyOK"], n=500),
        lambda: unary(c, "pre", ["AcceptOK", "DeadOK", "EmptyOK"], n=80, big=300, period=60000),
        lambda: words(c, ["AcceptOK", "DeadOK", "EmptyOK"], pre=1),
    ] + [lambda: m_rewrite(c)] + [lambda: small(c, 1, inv)] +
          chunks(lambda shift: rnd(c, "pre", 2500, inv, shift=1 + shift), 6))


def c15(c):
    inv = ["NoPanic", "ShapeOK", "RowOK", "CompleteOK", "DeadRowOK", "AnswerOK", "SameOK"]

    def gen():
        f = c.gen("GenAst", "small", {"SIZE": 4 if Q else 5, "PRE": 1})
        c.conform("small", "dfa", {"mode": "file", "in": f, "seed": SEED}, "ConformDfa", inv,
                  mem="8g", workers=4)
    c.run([lambda: m_dfa(c)] + [gen,
           lambda: rnd(c, None, 100, inv, fam="dfa", module="ConformDfa", variant="n")]
          + chunks(lambda shift: rnd(c, None, 900, inv, fam="dfa", module="ConformDfa",
                                     shift=shift), 7))


def c16(c):
    inv = ["NoPanic", "OutcomeOK", "AcceptOK", "DeadOK"]
    c.run([lambda: m_mapast(c)] + chunks(lambda shift: rnd(c, None, 1500, inv, fam="refuse", module="ConformRefuse",
                                   shift=shift, ops=14 + 3 * shift), 6))


def c17(c):
    inv = ["NoPanic", "WideOK", "NestOK", "MeetOK", "CountOK", "EmptyOK", "NextOK",
           "NextCountOK"]

    def trees():
        f = c.gen("GenTree", "trees", {"SIZE": 7 if Q else 9})
        c.conform("trees", "fold", {"mode": "file", "in": f}, "ConformFold",
                  ["NoPanic", "VisitOK", "EndOK"])
    c.run([lambda: m_mapast(c)] + [
        trees,
        lambda: rnd(c, None, 36, ["NoPanic", "VisitOK", "EndOK"], fam="fold",
                    module="ConformFold"),
        lambda: rnd(c, None, 12, inv, fam="deep", module="ConformDeep", shift=6, only="count"),
        lambda: rnd(c, None, 6, inv + ["NullOK"], fam="deep", module="ConformDeep", shift=7,
                    only="null"),
        lambda: rnd(c, None, 30, inv + ["NullOK"], fam="deep", module="ConformDeep", shift=9,
                    only="null", scale=1),
        lambda: rnd(c, None, 36, inv, fam="deep", module="ConformDeep", shift=1),
        lambda: rnd(c, None, 36, inv, fam="deep", module="ConformDeep", shift=2),
        lambda: rnd(c, None, 54, inv, fam="deep", module="ConformDeep", shift=8),
        lambda: rnd(c, None, 54, inv, fam="deep", module="ConformDeep", shift=3, scale=3,
                    words=20),
        lambda: rnd(c, None, 18, inv, fam="deep", module="ConformDeep", shift=4, variant="n"),
        lambda: rnd(c, None, 3, inv, fam="deep", module="ConformDeep", shift=5, only="chain"),
        lambda: c.model("MC_Layered", ["LayerOK"], {"DEPTH": 3, "LEN": 3 if Q else 4}),
    ])


def c18(c):
    inv = ["NoPanic", "SameOK"]
    c.run([lambda: c.model("MC_Repro", ["SameOK"], {"LEN": 7 if Q else 8, "SHARED": 0})]
          + chunks(lambda shift: rnd(c, None, 1500, inv, fam="repro", module="ConformRepro",
                                     shift=shift), 7)
          + [lambda: rnd(c, None, 500, inv, fam="repro", module="ConformRepro", variant="n",
                         shift=20)])


def c19(c):
    inv = ["NoPanic", "FiniteOK", "StillOK"]
    ends = "PROPERTY Ends\n"

    def small_():
        f = c.gen("GenAst", "small", {"SIZE": 4 if Q else 5, "PRE": 1})
        c.conform("small", "finite", {"mode": "file", "in": f, "seed": SEED}, "ConformFinite",
                  inv, mem="8g", workers=4)
    c.run([small_, lambda: rnd(c, None, 600, inv, fam="finite", module="ConformFinite",
                               variant="n", shift=20, extra=ends)]
          + chunks(lambda shift: rnd(c, None, 1800, inv, fam="finite", module="ConformFinite",
                                     shift=shift, extra=ends), 5))


def c20(c):
    inv = ["NoPanic", "MembersOK", "IdentityOK", "AgainOK"]
    c.run([lambda: c.model("MC_ByteSets", ["MeaningOK", "InsideOK", "OneNodeOK"], {"MASK": 1})]
          + chunks(lambda shift: rnd(c, None, 1200, inv, fam="sets", module="ConformSets",
                                     shift=shift), 6)
          + [lambda: rnd(c, None, 300, inv, fam="sets", module="ConformSets", ops=150, shift=9)])


def c21(c):
    inv = ["NoPanic", "VisitOK", "EndOK"]
    c.run([lambda: c.model("MC_Shared", ["EndOK"], {"N": 4},
                           properties=["RefinesOK", "Ends"])]
          + chunks(lambda shift: rnd(c, None, 3500, inv, fam="share", module="ConformShare",
                                     shift=shift), 6))


def c22(c):
    inv = ["NoPanic", "ReadOK", "SetsOK", "MeansOK", "TableOK", "CutOK", "InfoOK", "NamesOK"]

    def model(sym):
        c.model("MC_Printed", ["WellFormed", "Back"], {"DEPTH": 2 if Q or not sym else 3},
                constants={"Sym": sym}, properties=["Moves"])
    c.run([lambda: model("FALSE"), lambda: model("TRUE")] +
          chunks(lambda shift: rnd(c, None, 1000, inv, fam="print", module="ConformPrinted",
                                   shift=shift, deep=8), 6))


PLANS = {
    "C01": (c01, []), "C02": (c02, []), "C03": (c03, []), "C04": (c04, []), "C05": (c05, []),
    "C06": (c06, []), "C07": (c07, []), "C08": (c08, []), "C09": (c09, []), "C10": (c10, []),
    "C11": (c11, []), "C12": (c12, []), "C13": (c13, []), "C14": (c14, []), "C15": (c15, []),
    "C16": (c16, []), "C17": (c17, []), "C18": (c18, []),
    "C19": (c19, []), "C20": (c20, []), "C21": (c21, []), "C22": (c22, []),
}
