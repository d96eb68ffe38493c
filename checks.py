"""The jobs that decide each property: harness, configuration, bounds, expected reachability witnesses."""
import copy
import re



class Job:
    def __init__(self, name, src, tier="both", defs=None, reach=(1,), bounds="", time=300, samples=24, nval=96, native=True, failalloc=False, single=False, ubsan=False, steps=4000000, all=False, stub=False, shared=False, count=False):
        short = lambda s: re.sub(r"(.{1,12}?)\1{19,}", lambda m: "%s{%d}" % (m.group(1), len(m.group(0)) // len(m.group(1))), s)
        self.name, self.src, self.tier, self.defs, self.reach, self.bounds = short(name), src, tier, dict(defs or {}), list(reach), short(bounds)
        self.time, self.samples, self.nval, self.native, self.failalloc, self.single, self.ubsan, self.steps, self.all = time, samples, nval, native, failalloc, single, ubsan, steps, all
        self.stub, self.shared, self.count = stub, shared, count


PROPS, CHECKS = {}, {}


def prop(pid, jobs, assumptions=()):
    PROPS[pid] = dict(assumptions=list(assumptions))
    CHECKS[pid] = jobs


def tiers(name, src, quick, thorough, bounds, **kw):
    """one job per tier with different bounds (defs)"""
    base = kw.pop("defs", {})
    return [Job(name, src, "quick", dict(base, **quick), bounds=bounds % quick if "%" in bounds else bounds, **kw),
            Job(name, src, "thorough", dict(base, **thorough), bounds=bounds % thorough if "%" in bounds else bounds, **kw)]


SETUPS = {0: "delimiter ,", 1: "delimiter ::", 2: "delimiter aab", 3: "delimiter TAB", 4: "delimiter ,,,,", 5: "empty delimiter", 6: "quote", 7: "quote,trim", 8: "quote, delimiter ::",
          9: "quote ', delimiter ;", 10: "quote,escape", 11: "escape", 12: "escape,trim", 13: "two escapes,quote", 14: "quote,escape,trim", 15: "escape, delimiter ::", 16: "trim", 17: "trim_left",
          18: "trim_right", 19: "trim_left blank, trim_right tab/dash", 20: "quote, trim_left _/blank, trim_right blank, delimiter ;", 21: "quote,escape,trim blank/tab", 22: "trim, delimiter ::",
          23: "quote,escape,trim, delimiter ::", 24: "quote, two escapes, trim_left blank/_, trim_right -",
          25: "trim of 5 characters", 26: "6 escapes, trim_left of 6 characters"}
ERRS = {0: "flag", 1: "message", 2: "exception"}
ROW = "splitter, converter and parser on one row of 0..%d arbitrary bytes (no NUL; parser: no LF inside); setup %s; error mode %s"


def rows(pid, cases):
    """cases: (setup, err, quick length, thorough length)"""
    jobs = []
    for s, e, q, t in cases:
        for tier, n in (("quick", q), ("thorough", t)):
            if n:
                jobs.append(Job("row %s %s" % (SETUPS[s], ERRS[e]), "split.cpp", tier, dict(SETUP=s, ERR=e, MAXLEN=n), bounds=ROW % (n, SETUPS[s], ERRS[e]), reach=[2] if s == 5 else [1, 3, 4, 5]))
    prop(pid, jobs)


def cstr(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\%03o" % ord(c) for c in s) + '"'


def row(setup, q, t, reach=(1, 3, 4, 5), err=0, steps=4000000, **kw):
    """rows of a given shape: PRE + FILLWITH repeated (one of FILLS) + symbolic bytes + POST, the delimiter symbolic when DMAX is set"""
    c = dict(SETUP=setup, ERR=err, **kw)
    b = "splitter, converter and parser on %(PRE)r + " % dict(PRE=kw.get("PRE", "")) + ("%r repeated %s times + " % (kw["FILLWITH"], kw["FILLS"].replace(", ", " or ")) if "FILLS" in kw else "") + "0..%d " + ("of %r" % kw["ALPHABET"] if "ALPHABET" in kw else "arbitrary bytes (no NUL; parser: no LF)") \
        + (" + %r" % kw["POST"] if kw.get("POST") else "") + "; setup " + SETUPS[setup] + ("; delimiter any string of 1..%d %s" % (kw["DMAX"], "of %r" % kw["DALPHA"] if "DALPHA" in kw else "bytes (none that the setup gives a meaning, no line break)") if "DMAX" in kw else "") + "; error mode " + ERRS[err]
    name = "row %s %s" % (SETUPS[setup], "symbolic delimiter" if "DMAX" in kw else "%r repeated" % kw["FILLWITH"] if "FILLS" in kw else "shaped")
    return [Job(name, "split.cpp", tr, {k: cstr(v) if isinstance(v, str) and k != "FILLS" else v for k, v in dict(c, MAXLEN=n).items()}, bounds=b.replace("%d", str(n), 1), reach=reach, steps=steps) for tr, n in (("quick", q), ("thorough", t)) if n]


rows("C02", [(0, 0, 11, 13), (1, 1, 11, 13), (2, 0, 11, 13), (3, 2, 9, 12), (4, 0, 11, 14), (5, 1, 3, 4), (5, 0, 4, 6), (5, 2, 0, 6)])
CHECKS["C02"] += (row(0, 5, 7, DMAX=3) + row(0, 6, 8, DMAX=5, DALPHA="ab", ALPHABET="ab") + row(0, 6, 7, DMAX=4, DALPHA="ab:", ALPHABET="ab:", err=2) + row(0, 3, 4, DMAX=8, DALPHA="ab", ALPHABET="ab", PRE="aab,abaabbab", POST="abb")
                  + row(0, 4, 5, FILLS="60, 127, 255, 256, 300", FILLWITH="f", ALPHABET="a,f", PRE="a,") + row(0, 3, 4, FILLS="3, 15, 40", FILLWITH="x,", ALPHABET="a,", reach=(1, 3), err=1) + row(1, 3, 4, FILLS="127, 255, 256", FILLWITH="f:", ALPHABET="a:", PRE="a::"))
rows("C03", [(6, 0, 9, 11), (7, 1, 8, 10), (8, 0, 8, 11), (9, 2, 8, 10), (10, 0, 8, 10)])
rows("C04", [(11, 0, 10, 12), (10, 1, 8, 10), (12, 0, 8, 10), (13, 0, 8, 10), (14, 2, 8, 9), (15, 0, 9, 11), (26, 0, 6, 8)])
rows("C05", [(16, 0, 9, 10), (17, 0, 9, 11), (18, 0, 8, 10), (19, 1, 8, 9), (20, 0, 8, 10), (21, 0, 7, 9), (22, 2, 8, 10), (25, 0, 7, 8)])
CHECKS["C03"] += (row(6, 5, 6, DMAX=3, DALPHA="ab:", ALPHABET="ab:\"") + row(6, 4, 5, FILLS="20, 127, 255, 256, 300", FILLWITH="\"\"", PRE="x,\"", POST="\"", ALPHABET="a,\"") + row(10, 4, 5, FILLS="60, 127, 255, 256", FILLWITH="f,", PRE="\"", POST="\",z", ALPHABET="a\"\\", err=1)
                  + row(6, 4, 5, FILLS="2, 7", FILLWITH="\"a\",", ALPHABET="a\",", reach=(1, 3)))
CHECKS["C04"] += (row(11, 5, 6, DMAX=3, DALPHA="ab:", ALPHABET="ab:\\") + row(11, 4, 5, FILLS="20, 127, 255, 256, 300", FILLWITH="\\a", PRE="x,", ALPHABET="a,\\") + row(10, 4, 5, FILLS="60, 127, 255, 256", FILLWITH="\\\"", PRE="\"", POST="\",z", ALPHABET="a\"\\", err=1)
                  + row(11, 4, 5, FILLS="10, 31, 32, 255, 256", FILLWITH="\\", ALPHABET="a,\\", PRE="x,", reach=(1, 3)))
CHECKS["C05"] += (row(16, 5, 6, DMAX=3, DALPHA="ab:", ALPHABET="ab: ") + row(16, 4, 5, FILLS="20, 70, 127, 255, 256", FILLWITH=" ", PRE="x,", ALPHABET="a ,") + row(16, 4, 5, FILLS="20, 70, 127, 255, 256", FILLWITH=" ", PRE="x", ALPHABET="a ,", err=1)
                  + row(14, 4, 5, FILLS="20, 127, 255", FILLWITH=" ", PRE="\"x\"", ALPHABET="a ,\"") + row(21, 3, 4, FILLS="10, 64, 128", FILLWITH="\t ", ALPHABET="a ,\"\t", POST="\"x\"  ,b"))


WHOLE = "whole input of %s%s symbolic bytes%s, setup %s%s, error mode %s, source %s"
SRCS = {0: "buffer", 1: "file", 2: "buffer or file"}


def whole(name, setup, quick, thorough, reach, src="whole.cpp", **kw):
    """quick/thorough: (minlen, maxlen); kw: harness defines"""
    jobs = []
    for tier, rng in (("quick", quick), ("thorough", thorough)):
        if not rng:
            continue
        d = dict(SETUP=setup, MINLEN=rng[0], MAXLEN=rng[1])
        for k, v in kw.items():
            if k not in ("time", "samples", "nval", "steps", "ubsan"):
                d[k] = cstr(v) if isinstance(v, str) else v
        ml = kw.get("ML", -1)
        opt = (", multiline" + (" limit %d" % ml if ml > 0 else "") if ml >= 0 else "") + (", ignore_empty" if kw.get("IE") else "") + (", ignore_header" if kw.get("IH") else "")
        fill = kw.get("FILLS", 1)
        sk = ("%r + " % kw["PRE"] if kw.get("PRE") else "") + ("%d..%d fill bytes + " % (kw.get("FILL", 0), kw.get("FILL", 0) + fill - 1) if "FILL" in kw else "")
        b = WHOLE % (sk, "%d..%d %s" % (rng[0], rng[1], "special-character" if kw.get("ALPHA") else "arbitrary (non-NUL)"), " + %r" % kw["POST"] if kw.get("POST") else "", SETUPS[setup], opt, ERRS[kw.get("ERR", 0)], SRCS[kw.get("SRC", 0)])
        if kw.get("SKIP"):
            b += ", every interleaving of reading and ignore_next"
        jobs.append(Job(name, src, tier, d, reach=reach, bounds=b, **{k: kw[k] for k in ("time", "samples", "nval", "steps", "ubsan") if k in kw}))
    return jobs


prop("C01", whole("any bytes", 0, (0, 6), (0, 8), [1, 2], SRC=2)
     + whole("ignore_empty", 0, (0, 7), (0, 9), [1, 2], SRC=2, IE=1, ALPHA=1)
     + whole("ignore_header", 0, (0, 7), (0, 9), [1, 2], SRC=2, IH=1, ALPHA=1, IE=0)
     + whole("ignore_header+empty", 0, (0, 7), (0, 9), [1, 2], SRC=2, IH=1, ALPHA=1, IE=1, ERR=1)
     + whole("skipping", 0, (0, 6), (0, 8), [1, 2, 4], SRC=2, SKIP=1, ALPHA=1)
     + whole("skipping, ignore_empty", 0, (0, 6), (0, 8), [1, 2, 4], SRC=2, SKIP=1, ALPHA=1, IE=1, ERR=2)
     + whole("long line buffer growth", 0, (0, 3), (0, 5), [2], SRC=2, PRE="a\n", FILL=124, FILLS=6, POST="\nb,c\n", ALPHA=1)
     + whole("long line buffer growth 256", 0, (0, 3), (0, 4), [2], SRC=2, PRE="a\n", FILL=251, FILLS=6, POST="\r\nb,c", ALPHA=1)
     + whole("long line buffer growth 512", 0, (0, 2), (0, 4), [2], SRC=2, PRE="a\n", FILL=507, FILLS=6, POST="\r\nb,c", ALPHA=1)
     + whole("long line buffer growth 1024 to 4096", 0, (1, 1), (0, 2), [2], SRC=2, PRE="a\n" + "g" * 1016 + "\n" + "h" * 2040 + "\n", FILL=4087, FILLS=8, POST="\r\nb,c", ALPHA=1, steps=40000000)
     + whole("line of 64 K", 0, (1, 1), (0, 1), [2], SRC=2, PRE="a\n", FILL=65533, FILLS=2, POST="\nb,c\n", ALPHA=1, steps=40000000))
BIG = dict(steps=80000000)
CHECKS["C02"] += row(0, 2, 3, FILLS="65533, 65535, 65536", FILLWITH="f", ALPHABET="a,f", PRE="a,", reach=(1, 3), **BIG) + row(0, 2, 3, FILLS="254, 256, 300", FILLWITH="x,", ALPHABET="a,", reach=(1, 3), **BIG)
CHECKS["C03"] += row(6, 2, 3, FILLS="32766, 32768", FILLWITH="\"\"", PRE="x,\"", POST="\"", ALPHABET="a,\"", reach=(1, 3), **BIG) + row(6, 3, 4, FILLS="254, 257", FILLWITH="\"a\",", ALPHABET="a\",", reach=(1, 3), **BIG)
CHECKS["C04"] += row(11, 2, 3, FILLS="32767, 32768", FILLWITH="\\a", PRE="x,", ALPHABET="a,\\", reach=(1, 3), **BIG) + row(11, 3, 4, FILLS="254, 257", FILLWITH="\\,,", ALPHABET="a\\,", reach=(1, 3), **BIG)
CHECKS["C05"] += row(16, 2, 3, FILLS="65535, 65537", FILLWITH=" ", PRE="x,", ALPHABET="a ,", reach=(1, 3), **BIG) + row(14, 2, 3, FILLS="65535, 65537", FILLWITH=" ", PRE="\"x\"", ALPHABET="a ,\"", reach=(1, 3), **BIG)
TYPES = ["short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "ss::int8", "ss::uint8"]
COL = "one column: %r + 0..%d %s bytes + %r as %s, alone, between other columns, and through extract()"


def column(ty, q, t, pre="", post="", digits=0, tier=None, reach=(1, 2), modes=3, **kw):
    out = []
    for tr, n in (("quick", q), ("thorough", t)):
        if n:
            out.append(Job("%s %s..%s%s" % (ty, pre, "digits" if digits else "any", post), "nums.cpp", tr, dict(TYPE=ty, MAXLEN=n, PRE=cstr(pre), POST=cstr(post), DIGITS=digits, MODES=modes),
                           bounds=COL % (pre, n, "digit" if digits else "arbitrary (no NUL, no comma)", post, ty), reach=list(reach), **kw))
    return out


prop("C09", column("int", 4, 5) + column("ss::int8", 5, 6) + column("ss::uint8", 4, 6) + column("unsigned", 3, 4) + column("short", 0, 5) + column("long", 3, 5) + column("unsigned long long", 0, 5)
     + column("int", 4, 5, pre="214748", reach=(1, 2)) + column("int", 4, 5, pre="-214748") + column("unsigned", 4, 5, pre="429496", digits=1)
     + column("short", 3, 4, pre="327") + column("short", 3, 4, pre="-32") + column("unsigned short", 3, 4, pre="65") + column("unsigned short", 0, 4, pre="-")
     + column("long", 2, 3, pre="92233720368547758") + column("long", 2, 3, pre="-92233720368547758") + column("unsigned long", 2, 3, pre="184467440737095516") + column("long long", 0, 3, pre="922337203685477580")
     + column("unsigned long long", 0, 3, pre="1844674407370955161") + column("ss::int8", 3, 4, pre="-0000000000000000000000") + column("ss::uint8", 3, 4, pre="0000000000000000000000") + column("int", 2, 3, pre="000000000000000000002147483")
     + column("long", 0, 3, pre="00000000000000000000000000000000000009223372036854775"))
CHECKS["C09"] += column("int", 3, 4, pre="0" * 300) + column("long", 2, 3, pre="-" + "0" * 260 + "92233720368547758") + column("ss::uint8", 2, 3, pre="0" * 65536, reach=(1, 2), steps=80000000)
CHECKS["C09"] += column("int", 3, 4, pre="42949672") + column("long", 2, 3, pre="184467440737095516") + column("signed char", 4, 5)
ST, SV = "std::string", "std::string_view"
prop("C10", column("bool", 6, 7) + column("char", 5, 6) + column(ST, 5, 7, reach=[1]) + column(SV, 5, 7, reach=[1])
     + column("std::optional<int>", 3, 4, reach=[1]) + column("std::optional<bool>", 5, 6, reach=[1]) + column("std::optional<char>", 4, 5, reach=[1]) + column("std::optional<std::string>", 0, 5, reach=[1]) + column("std::optional<ss::int8>", 0, 5, reach=[1])
     + [Job("variant " + n, "nums.cpp", tr, dict(TYPE=t, MAXLEN=m), reach=r, bounds=COL % ("", m, "arbitrary (no NUL, no comma)", "", n))
        for n, t, q, th, r in (("int,bool,string", "std::variant<int,bool,std::string>", 4, 5, [1]), ("char,int", "std::variant<char,int>", 4, 5, [1, 2]), ("bool,ss::int8", "std::variant<bool,ss::int8>", 4, 5, [1, 2]),
                               ("string,int", "std::variant<std::string,int>", 0, 5, [1]), ("uint8,int,char,bool", "std::variant<ss::uint8,int,char,bool>", 4, 5, [1, 2]))
        for tr, m in (("quick", q), ("thorough", th)) if m])
CHECKS["C10"] += column(ST, 3, 4, pre="x" * 300, reach=[1]) + column(SV, 2, 3, pre="x" * 65534, reach=[1], steps=80000000) + column("char", 3, 4, pre="x" * 256, reach=[2]) + column("bool", 3, 4, pre="0" * 255, reach=[2]) + column("std::optional<char>", 3, 4, pre="x" * 256, reach=[1])
RESTR = ["range, out of range, greater, greater or equal, less (int)", "less or equal, all except, one of (int), non-empty, user predicate", "one of / all except (char), range (unsigned char), user predicates", "range/out of range (char), >= (long), all except (bool), non-empty view",
         "lists of 4, 7 and 9 values: all except / one of (int, char, long)", "range of one value, out of one value, < (unsigned), > (char), one of (bool)", "one of / all except one value, <= 0 (unsigned), out of range and range up to the limits of the type (unsigned char, short)"]
prop("C11", [Job("restrictions %d %s" % (g, ERRS[e]), "restr.cpp", tr, dict(GROUP=g, ERR=e, MAXLEN=n), reach=[1, 2, 3], bounds="%s; column of 0..%d arbitrary bytes (no NUL, comma, line break); alone or between other columns; error mode %s" % (RESTR[g], n, ERRS[e]))
             for g, e in ((0, 0), (1, 1), (2, 2), (3, 0), (4, 0), (5, 1), (6, 2), (0, 1), (1, 2), (2, 0), (3, 1), (4, 1), (5, 2), (6, 0)) for tr, n in (("quick", 3 if (g, e) in ((0, 0), (1, 1), (2, 2), (3, 0), (4, 0), (5, 1), (6, 2)) else 0), ("thorough", 4)) if n])


LF2 = "\n"
prop("C06", whole("quote", 6, (0, 7), (0, 9), [1, 2, 3, 5, 6], ML=0, ALPHA=1, SRC=2)
     + whole("quote,escape", 10, (0, 6), (0, 8), [1, 2, 3, 5, 6], ML=0, ALPHA=1, SRC=2)
     + whole("escape", 11, (0, 7), (0, 9), [1, 2, 3, 5, 6], ML=0, ALPHA=1, SRC=2)
     + whole("quote,escape,trim", 14, (0, 6), (0, 8), [1, 2, 3, 5, 6], ML=0, ALPHA=1, ERR=1)
     + whole("quote, any bytes", 6, (0, 5), (0, 7), [1, 2, 3], ML=0, ERR=2)
     + whole("quote,escape, any bytes", 10, (0, 5), (0, 6), [1, 2, 3], ML=0)
     + whole("in quotes", 10, (0, 6), (0, 8), [3], PRE="x,\"", POST="\n\",b\nc\n", ML=0, ALPHA=1, SRC=2)
     + whole("quote, trim_left/right ;", 20, (0, 6), (0, 7), [1, 2, 3, 5, 6], ML=0, ALPHA=1)
     + whole("quote ::", 8, (0, 6), (0, 8), [1, 2, 3, 5, 6], ML=0, ALPHA=1, IE=1)
     + whole("long quoted lines", 10, (0, 4), (0, 6), [5], PRE="a\n\"", FILL=120, FILLS=8, POST="\r\n\",b\nc,d\n", ML=0, ALPHA=1, SRC=2)
     + whole("record of 300 lines", 6, (0, 3), (0, 4), [5], PRE="\"" + "x\n" * 299, POST="\n\"\nc,d\n", ML=0, ALPHA=1, SRC=2, steps=40000000)
     + whole("record of 300 escaped lines", 11, (0, 3), (0, 4), [5], PRE="x\\\r\n" * 299, POST="\\\n\nc,d\n", ML=0, ALPHA=1, SRC=2, steps=40000000)
     + whole("quoted cell of 64 K", 6, (1, 1), (0, 2), [5], PRE="a\n\"", FILL=65530, FILLS=3, POST="\r\n\",b\nc,d\n", ML=0, ALPHA=1, SRC=2, steps=40000000)
     + whole("long quoted lines 2", 10, (0, 4), (0, 5), [5], PRE="a\r\n\"q\\\\q\"\"q\r\n\r\n", FILL=110, FILLS=12, POST="\r\n\",b\nc,d\n", ML=0, ALPHA=1, SRC=2))
prop("C07", whole("limit 1", 6, (0, 7), (0, 9), [1, 2, 3, 5], ML=1, ALPHA=1, SRC=2)
     + whole("limit 2", 6, (0, 7), (0, 9), [1, 2, 3, 5], ML=2, ALPHA=1)
     + whole("limit 1 escape", 11, (0, 7), (0, 9), [1, 2, 3, 5], ML=1, ALPHA=1, ERR=1, SRC=2)
     + whole("limit 2 quote,escape", 10, (0, 6), (0, 8), [1, 2, 3, 5], ML=2, ALPHA=1, ERR=2)
     + whole("limit 3 quote,escape", 10, (2, 5), (0, 7), [3], ML=3, ALPHA=1, PRE="\"", POST="\n\\\n\n\",b\nc\n", ERR=1)
     + whole("limit 2 many lines", 10, (0, 6), (0, 7), [3], ML=2, ALPHA=1, PRE="a\n\"b", POST="\nc\n\"d\n\",e\nf,g\n", ERR=1, SRC=1)
     + whole("limit 1 ignore_empty", 10, (0, 6), (0, 8), [1, 2, 3, 5], ML=1, ALPHA=1, IE=1)
     + whole("limit 300", 6, (0, 4), (0, 5), [3], ML=300, ALPHA=1, PRE="\"" + "x\n" * 297, POST="\nb\nc\"\n", SRC=2, steps=40000000)
     + whole("limit 300, escapes", 11, (0, 4), (0, 5), [3], ML=300, ALPHA=1, PRE="x\\\n" * 298, POST="\\\nb\nc\n", ERR=1, steps=40000000)
     + whole("limit 10", 10, (0, 4), (0, 6), [3], ML=10, ALPHA=1, PRE="\"" + "x\n" * 8, POST="\nb\n\"\n", ERR=2, SRC=1)
     + whole("unlimited, open at the end", 10, (0, 6), (0, 8), [3], ML=0, ALPHA=1, PRE="\"a\n", POST="", ERR=1, SRC=2)
     + whole("unlimited, escape at the end", 14, (0, 6), (0, 7), [3], ML=0, ALPHA=1, PRE="a,b\n", POST="\\", ERR=2, SRC=2))
prop("C21", whole("quote,escape multiline", 10, (0, 6), (0, 8), [1, 2, 3, 5, 6], ML=0, ALPHA=1, SRC=2, VAL=0, POS=1, SKIP=1)
     + whole("plain any bytes", 0, (0, 6), (0, 8), [1, 2, 6], SRC=2, VAL=0, POS=1)
     + whole("quote multiline limit 1, ignore_empty", 6, (0, 7), (0, 8), [1, 2, 3, 5, 6], ML=1, ALPHA=1, SRC=2, VAL=0, POS=1, IE=1, ERR=1)
     + whole("ignore_empty, ignore_header", 7, (0, 7), (0, 8), [1, 2, 3, 6], ALPHA=1, SRC=2, VAL=0, POS=1, IE=1, IH=1)
     + whole("many lines", 6, (0, 4), (0, 5), [6], ML=0, ALPHA=1, SRC=2, VAL=0, POS=1, PRE="a\r\n" * 253 + "\"" + "b\n" * 30, POST="\"\nc\n", steps=40000000)
     + whole("many blank lines", 10, (0, 4), (0, 5), [6], ML=0, ALPHA=1, SRC=2, VAL=0, POS=1, IE=1, IH=1, PRE="h\n" + "\n" * 1020, POST="\"\nc\n\n\nd", steps=40000000)
     + whole("long lines", 6, (1, 2), (0, 3), [6], ML=0, ALPHA=1, SRC=2, VAL=0, POS=1, PRE="a\n\"", FILL=65530, FILLS=3, POST="\r\n\",b\nc,d\n", steps=40000000)
     + whole("escape multiline", 12, (0, 6), (0, 8), [1, 2, 3, 5, 6], ML=0, ALPHA=1, SRC=2, VAL=0, POS=1, ERR=2))

REQ = ["int,string | char,int,bool | string x3", "ignored,int | int,ignored,char | ignored x2,string", "optional<int>,char | string,variant,string | string_view,int8", "all-except int,string | string,non-empty | char x4", "12 types int,string,char x4 | 10 types | 11 types with ignored ones"]
prop("C12", [Job("%s %s %s" % (REQ[g], SETUPS[s], al or "any bytes"), "rowconv.cpp", tr, dict(GROUP=g, SETUP=s, ERR=e, MAXLEN=n, ALPHABET=cstr(al)), reach=[1, 3] + ([2] if s not in (0, 16) else []),
                 bounds="request %s; row of 1..%d %s bytes; setup %s; error mode %s; parser, converter, stored split" % (REQ[g], n, "of %r" % al if al else "arbitrary (no NUL, LF)", SETUPS[s], ERRS[e]))
             for g, s, e, al, q, t in ((0, 0, 0, "", 5, 6), (0, 10, 1, ",\"\\12-ax", 5, 6), (1, 0, 1, "", 5, 6), (1, 7, 0, ", \"12x", 6, 7), (2, 0, 2, "", 5, 6), (2, 6, 0, ",\"128-x", 5, 6), (3, 0, 0, "", 5, 7), (3, 16, 2, ", 12x", 7, 8))
             for tr, n in (("quick", q), ("thorough", t))])
CHECKS["C12"] += [Job("%s after %s" % (REQ[g], pre if len(pre) < 40 else "%d columns" % pre.count(",")), "rowconv.cpp", tr, dict(GROUP=g, SETUP=s, ERR=e, MAXLEN=n, ALPHABET=cstr(al), PRE=cstr(pre)), reach=r, steps=80000000,
                      bounds="request %s; row of %r + 1..%d bytes of %r; setup %s; error mode %s; parser, converter, stored split" % (REQ[g], pre, n, al, SETUPS[s], ERRS[e]))
                  for g, s, e, al, pre, r, q, t in ((4, 0, 0, "1,a", "1,a,b,2,c,d,3,e,f,", [1, 3], 6, 7), (4, 6, 1, "1,\"", "1,a,\"b\",2,c,d,3,e,f,4,", [1, 2, 3], 5, 6), (0, 0, 1, "1,a", "1," * 254, [3], 4, 5), (0, 0, 0, "1,a", "1," * 256, [3], 3, 4), (3, 6, 0, "1,\"", "1," * 254, [3, 2], 4, 5), (1, 0, 2, "1,", "1," * 65534, [3], 3, 4))
                  for tr, n in (("quick", q), ("thorough", t))]


def trip(name, setup, q, t, **kw):
    jobs = []
    for tr, v in (("quick", q), ("thorough", t)):
        if not v:
            continue
        rows_, cols, cell, total = v
        d = dict(SETUP=setup, ROWS=rows_, COLS=cols, CELL=cell, TOTAL=total, ML=0, **kw)
        opt = {k: d.pop(k) for k in ("steps",) if k in d}
        jobs.append(Job(name, "roundtrip.cpp", tr, d, **opt, reach=[1, 2], bounds="tables of %d x %d cells of 0..%d %s bytes, at most %d in all%s; written %s; LF or CRLF, terminated or not; setup %s, multiline"
                        % (rows_, cols, cell, "special" if kw.get("ALPHA") else "arbitrary (no NUL)", total, ", %d..%d fill bytes first" % (kw["FILL"] - 1, kw["FILL"] + 1) if kw.get("FILL") else "",
                           ["quoted with doubled quotes", "with special characters escaped (no CR)", "quoted with escaped quotes"][kw.get("WRITER", 0)], SETUPS[setup])))
    return jobs


prop("C08", trip("quoted", 6, (2, 2, 3, 4), (2, 2, 4, 6)) + trip("quoted special", 6, (2, 2, 3, 5), (3, 2, 3, 6), ALPHA=1) + trip("escaped", 11, (2, 2, 3, 4), (2, 2, 4, 6), WRITER=1)
     + trip("quoted, escapes", 10, (2, 2, 3, 4), (2, 2, 4, 6), WRITER=2) + trip("quoted, trim", 14, (2, 2, 3, 4), (2, 2, 4, 5), WRITER=0, ALPHA=1) + trip("escaped, trim", 12, (2, 2, 3, 4), (2, 2, 4, 5), WRITER=1, ALPHA=1)
     + trip("quoted ::", 8, (2, 1, 4, 5), (3, 1, 4, 7), ALPHA=1) + trip("quoted '", 9, (1, 3, 2, 4), (2, 3, 2, 6)) + trip("escaped ::", 15, (2, 2, 2, 4), (2, 2, 4, 6), WRITER=1, ALPHA=1)
     + trip("long cells", 6, (2, 2, 3, 3), (2, 2, 4, 4), FILL=119, ALPHA=1) + trip("long cells 2", 10, (2, 2, 3, 3), (2, 2, 4, 4), FILL=125, ALPHA=1, WRITER=2) + trip("long cells 3", 12, (2, 2, 3, 3), (2, 2, 4, 4), FILL=123, ALPHA=1, WRITER=1)
     + trip("cells of 1 K", 6, (1, 2, 3, 3), (2, 2, 4, 4), FILL=1019, ALPHA=1, steps=40000000) + trip("cells of 4 K", 10, (1, 2, 2, 2), (2, 2, 4, 4), FILL=4087, ALPHA=1, WRITER=2, steps=40000000) + trip("cell of 64 K", 12, (1, 1, 2, 2), (1, 2, 3, 3), FILL=65530, ALPHA=1, WRITER=1, steps=80000000)
     + trip("all kinds", 23, (2, 2, 3, 4), (2, 2, 4, 5), ALPHA=1, WRITER=2))


def generic(name, src, q, t, bounds, reach=(1, 2), common=None, **kw):
    """q, t: defs of the quick / thorough job (None: not in that tier); string values are C strings"""
    jobs = []
    common = dict(common or {})
    kw.update((k, common.pop(k)) for k in ("steps",) if k in common)
    for tr, d in (("quick", q), ("thorough", t)):
        if d is None:
            continue
        full = dict(common, **d)
        jobs.append(Job(name, src, tr, {k: cstr(v) if isinstance(v, str) and k not in RAW else v for k, v in full.items()}, reach=list(reach), bounds=bounds % full if "%(" in bounds else bounds, **kw))
    return jobs


RAW = {"TYPE", "KSET", "OPTS(N)", "OPSET", "FIELDS"}
IND = "whole buffer of %(PRE)r + %(MINLEN)d..%(MAXLEN)d bytes of %(ALPHABET)r + %(POST)r; every combination of requests {%(KSET)s} per record; each record compared with a fresh parser on its own bytes"
REU = "one converter on three lines of 0..%(MAXLEN)d bytes in all over %(ALPHABET)r, requests {%(KSET)s}; compared with fresh converters"


def indep(name, setup, q, t, al, kset, pre="", post="", reach=(1, 2), lo=0, **kw):
    c = dict(SETUP=setup, ALPHABET=al, KSET=kset, PRE=pre, POST=post, MINLEN=lo, **kw)
    return generic(name, "indep.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), (REU if kw.get("REUSE") else IND) + "; setup " + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else ""), reach, c)


prop("C13", indep("plain", 0, 5, 7, "a1,\n\r", "0, 1, 3", ERR=1)
     + indep("plain flag", 0, 5, 7, "a1,\n", "2, 1, 20", IE=1)
     + indep("quote multiline", 6, 5, 7, "a,\"\n", "0, 1, 20", ML=0, ERR=1)
     + indep("quote,escape multiline", 10, 5, 7, "a,\"\n\\", "1, 3", ML=0, ERR=1)
     + indep("quote,escape limit 1", 10, 5, 6, "a,\"\n\\", "0, 1", ML=1, ERR=2)
     + indep("quote,escape,trim", 14, 5, 7, "a,\" \n\\", "1, 5", ERR=0)
     + indep("failed record, then", 10, 4, 6, "1,\"\n\\", "1, 3, 20", ML=0, ERR=1, pre="\"a\"x,1\n", post="\n2,b\n")
     + indep("limit reached, then", 6, 4, 6, "1,\"\n", "1, 2, 4", ML=1, ERR=1, pre="\"a\n\nb\n", post="\n2,b\n")
     + indep("file", 10, 4, 6, "1,\"\n\\", "0, 1, 6", ML=0, ERR=1, SRC=1, post="\na,\"b\n")
     + indep("any bytes", 10, 4, 5, "", "0, 1", ML=0, ERR=1)
     + indep("after 260 failures", 6, 3, 4, "1,\"\n", "3", ML=0, ERR=1, pre="x,1\n" * 260, post="\n2,b\n", steps=80000000)
     + indep("after 130 failures of all kinds", 10, 3, 4, "1,\"\n\\", "2", ML=1, ERR=1, pre="x\n\"a\"b\n\"\n\n\n1,2\n" * 33, post="\n2\n", steps=80000000)
     + indep("after 300 records", 0, 3, 4, "1,\n", "1", ERR=1, pre="x,1\n" * 300, post="\n2,b\n", steps=80000000)
     + indep("converter reuse", 0, 5, 7, "a1,", "0, 1, 3, 7", ERR=1, REUSE=1)
     + indep("converter reuse, quote,escape", 10, 5, 6, "a1,\"\\", "0, 1, 3", ERR=1, REUSE=1)
     + indep("converter reuse, exceptions", 7, 5, 6, "a, \"", "0, 1, 6", ERR=2, REUSE=1))


MOD = "three parsers on %(PRE)r + %(MINLEN)d..%(MAXLEN)d bytes of %(ALPHABET)r + %(POST)r; every sequence of requests {%(KSET)s}"


def modes(name, setup, q, t, al, kset, pre="", post="", reach=(1, 2), lo=0, **kw):
    c = dict(SETUP=setup, ALPHABET=al, KSET=kset, PRE=pre, POST=post, MINLEN=lo, **kw)
    return generic(name, "modes.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), MOD + ("; header queries and field selections between" if kw.get("HDR") else "") + ["", "; two converter lines", "; null buffer / missing file of any name"][kw.get("CONV", 0)]
                   + "; setup " + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else ""), reach, c)


prop("C14", modes("plain", 0, 5, 7, "a1,\n\r", "0, 2, 3", SRC=0)
     + modes("plain, ignore_empty, file", 0, 5, 7, "a1,\n\r", "1, 2", SRC=1, IE=1)
     + modes("quote,escape,trim multiline", 14, 5, 7, "a,\"\\ \n", "0, 1, 6", ML=0)
     + modes("quote,escape limit 1", 10, 5, 7, "a,\"\\\n", "0, 1", ML=1, SRC=1)
     + modes("quote,escape", 10, 5, 7, "1,\"\\\n", "1, 5, 7", post="\n1,2\n")
     + modes("ignore_header", 6, 5, 6, "a,\"\n", "0, 4", ML=0, IH=1)
     + modes("any bytes", 10, 4, 5, "", "0, 1", ML=0)
     + modes("header", 6, 3, 4, "a,\"\n", "0, 1", pre="a,", post="\nx,y\n", HDR=1)
     + modes("header selected", 0, 2, 3, "a,b\n", "0, 1", pre="a,b\nx", post=",y\nz\n", HDR=1)
     + modes("header of anything", 14, 3, 4, "ab,\"\\ \n", "1", post="\nx,y\n", HDR=1, ML=0)
     + modes("converter", 10, 5, 6, "1,\"\\a", "0, 1, 2, 3, 4", CONV=1)
     + modes("converter, delimiter ::", 8, 5, 7, "1:\"a", "1, 5, 7, 8", CONV=1)
     + modes("restrictions", 0, 4, 6, "13a,\n", "9, 10", SRC=0, MORE=1)
     + modes("restrictions and own types, file", 6, 3, 5, "13a,\"", "11, 12, 9", SRC=1, MORE=1, pre="3,", post="\n1,b\n")
     + modes("restrictions, converter", 0, 4, 5, "13a,", "9, 10, 11, 12, 13", CONV=1, MORE=1)
     + modes("cannot be opened", 0, 3, 4, "", "0", CONV=2)
     + modes("empty delimiter", 5, 3, 4, "a,\n", "0, 1", reach=(2,)))


RQ = ["int | string,string | int,char", "string | char,int,bool | string,odd int", "all-except int and char | variant,int8 | odd int", "12 columns int,char,... | 11 strings, odd int | 10 strings"]
DG = "%(PRE)r + %(MINLEN)d..%(MAXLEN)d bytes of %(ALPHABET)r + %(POST)r; every sequence of requests"


def diag(name, setup, q, t, al, reqs, reach, err=1, pre="", post="", lo=0, **kw):
    c = dict(SETUP=setup, ALPHABET=al, REQS=reqs, PRE=pre, POST=post, MINLEN=lo, ERR=err, **kw)
    return generic(name, "diag.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), DG + " " + RQ[reqs] + "; setup " + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[err] + ("; fields c,a selected" if kw.get("MAPPED") else ""), reach, c)


prop("C15", diag("plain", 0, 6, 8, "1a,\n", 0, [1, 6, 7, 8])
     + diag("plain, exceptions, file", 0, 6, 8, "1a,\r\n", 0, [1, 6, 7, 8], err=2, SRC=1)
     + diag("three columns", 0, 6, 8, "1a,", 1, [1, 6, 7, 8], post="\nx,1,2\n", IE=1)
     + diag("any text", 0, 4, 5, "", 0, [1, 6, 7, 8], post=",x\n")
     + diag("restrictions", 0, 6, 7, "12a,\n", 2, [1, 6, 7, 8])
     + diag("restrictions, exceptions", 6, 6, 7, "12a,\"", 2, [1, 2, 3, 6, 7, 8], err=2, pre="b\n", post="\n2\n")
     + diag("quote", 6, 6, 8, "1,\"\n", 0, [1, 2, 3, 6, 7, 8], SRC=1)
     + diag("quote,escape", 10, 6, 7, "1,\"\\\n", 0, [1, 2, 3, 4, 6, 7, 8], err=2)
     + diag("quote,escape multiline", 10, 6, 7, "1,\"\\\n", 0, [1, 2, 3, 4, 6, 7, 8], ML=0, IE=1)
     + diag("quote,escape limit 1", 10, 6, 7, "a,\"\\\n", 1, [1, 2, 3, 4, 5, 6, 7], ML=1, SRC=1)
     + diag("quote limit 2, exceptions", 6, 5, 7, "a,\"\n", 0, [2, 5, 6, 7], ML=2, err=2, pre="x\n\"\n", post="\"\"\na\nb,c\n")
     + diag("trim", 14, 6, 7, "a,\" \n", 1, [1, 2, 3, 6, 7, 8], ML=0)
     + diag("long line numbers", 6, 4, 6, "1,\"\n", 0, [2, 6, 7, 8], ML=0, IE=1, pre="\n" * 9 + "\"\n\n", post="\n\nx\"\n1,xx\n")
     + diag("longer line numbers", 6, 3, 4, "1,\"\n", 0, [6, 7, 8], ML=0, IE=1, pre="\n" * 996 + "\"\n\n\",2\n", post="\n1,xx\n", steps=40000000)
     + diag("longest line numbers", 0, 2, 3, "1,x\n", 0, [6, 7], IE=1, pre="\n" * 65533, post="\n1,xx\n", err=2, steps=80000000)
     + diag("long texts", 0, 3, 4, "1,%\n", 0, [6, 7], IE=1, pre="1,", post="x" * 270 + "%s\n" + "y" * 130 + ",a\n", steps=40000000)
     + diag("many columns", 0, 3, 4, "1,\n", 0, [6, 7], pre="1," * 258, post="\n1,xx\n", steps=40000000)
     + diag("selected fields", 0, 5, 7, "1a,\n", 0, [1, 6, 7, 8], pre="a,b,c\n1,,", post=",\n2,3,4\n", MAPPED=1)
     + diag("selected fields, exceptions", 6, 5, 6, "1a,\"", 0, [1, 2, 3, 6, 7, 8], err=2, pre="a,b,c\n\n", post="\n2,3,4\n", MAPPED=1)
     + diag("twelve columns", 0, 4, 5, "1a,\n", 3, [1, 6, 7, 8], pre="1,a,2,b,3,c,4,d,5,", post=",e\n1,2,3,4,5,6,7,8,9,10,11,12\n")
     + diag("twelve columns, exceptions", 6, 4, 5, "1a,\"", 3, [1, 6, 7, 8], err=2, pre="\n" * 98 + "1,a,2,b,3,c,4,d,5,c,", post="\n1,2,3,4,5,6,7,8,9,10,11,12\n", IE=1)
     + diag("empty delimiter", 5, 3, 4, "a,\n", 0, [6]))


def fields(name, setup, q, t, reach, **kw):
    opt = {k: kw.pop(k) for k in ("steps",) if k in kw}
    short = lambda s: s if len(s) < 120 else s[:40] + "..." + s[-20:]
    c = dict(SETUP=setup, **kw)
    opn = [n for i, n in ((1, "read"), (2, "use_fields"), (4, "header"), (8, "raw_header"), (16, "field_exists"), (32, "ignore_next")) if kw.get("OPS", 3) & i]
    b = "header %r + 0..%%(HSYM)d + %r, rows %r + 0..%%(DSYM)d + %r, bytes of %r; every sequence of {%s} with at most %%(SELS)d selections and %%(QRS)d queries" % (
        short(kw.get("HPRE", "a,b,c\n")), kw.get("HPOST", ""), short(kw.get("DPRE", "")), short(kw.get("DPOST", "\n")), kw.get("ALPHABET", "ab,\n"), ", ".join(opn))
    b = b.replace("%%", "%")
    base = dict(HSYM=0, DSYM=3, SELS=2, QRS=0)
    b2 = re.sub(r"%(?!\()", "%%", b)
    return generic(name, "fields.cpp", q is not None and dict(base, **q) or None, t and dict(base, **t), b2 + "; setup " + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[kw.get("ERR", 0)], reach, c, **opt)


prop("C16", fields("any subset, any time", 0, dict(DSYM=3, SELS=2), dict(DSYM=4, SELS=3), [1, 2, 3], GOOD=1, ANYTYPES=0, DPRE="1,2,3\n", DPOST=",y,z\nu,v,w\n", ERR=1)
     + fields("errors between", 0, dict(DSYM=2, SELS=2), dict(DSYM=4, SELS=3), [1, 2, 3, 4], DPOST=",y,z\n", ERR=0)
     + fields("exceptions", 0, dict(DSYM=3, SELS=2), dict(DSYM=4, SELS=2), [1, 2, 3, 4], DPOST=",y,z\n", ERR=2, SRC=1)
     + fields("quote,escape multiline", 10, dict(DSYM=4, SELS=2), dict(DSYM=5, SELS=2), [1, 2, 3], HPRE="\"a\",b\\\\,\"c\"\"\"\r\n", DPOST=",x\n1,2,3\n", ALPHABET="a,\"\\\n", ML=0, ERR=1, GOOD=1, ANYTYPES=0)
     + fields("skipping rows", 0, dict(DSYM=3, SELS=2, QRS=2), dict(DSYM=4, SELS=2, QRS=3), [1, 2], OPS=35, GOOD=1, ANYTYPES=0, DPOST=",y,z\nu,v,w\n")
     + fields("blank lines skipped", 0, dict(DSYM=3, SELS=2, QRS=1), dict(DSYM=4, SELS=2, QRS=2), [1, 2, 3], HPRE="\n\r\na,b,c\n\n", OPS=35, GOOD=1, ANYTYPES=0, DPOST=",y\n\nu,v,w\n", IE=1, SRC=1)
     + fields("trim, delimiter ::", 23, dict(DSYM=3, SELS=2), dict(DSYM=4, SELS=2), [1, 2, 3], HPRE=" a ::b::\"c\"\n", DPRE="1::", DPOST="::z\nu::v::w", ALPHABET="a: \"\\", GOOD=1, ANYTYPES=0)
     + fields("two names", 6, dict(DSYM=2, SELS=2), dict(DSYM=5, SELS=3), [1, 2, 3, 4], HPRE="a,b\n", DPOST="\nu,v\n", ALPHABET="a,\"\n", ML=1)
     + fields("symbolic header", 0, dict(HSYM=3, DSYM=2, SELS=1), dict(HSYM=4, DSYM=3, SELS=2), [1, 2], HPRE="", HPOST="\n", DPOST="x\n1,2\n", ALPHABET="ab,", GOOD=1, ANYTYPES=0)
     + fields("packed setup", 10, dict(DSYM=3, SELS=2), dict(DSYM=4, SELS=2), [1, 2, 3], HPRE="a,b,c\n", DPOST=",x\n1,2,3\n", ALPHABET="a,\"\\\n", ML=0, GOOD=1, ANYTYPES=0, PACKED=1)
     + fields("eleven columns", 0, dict(DSYM=3, SELS=2), dict(DSYM=4, SELS=2), [1, 2, 3], HPRE="a,b,c,d,e,f,g,h,i,j,k\n", DPRE="1,2,3,4,5,6,7,8,", DPOST=",z\n" + ",".join("abcdefghijk") + "\n", GOOD=1, ANYTYPES=0, LAST=1)
     + fields("many columns", 6, dict(DSYM=2, SELS=2), dict(DSYM=3, SELS=2), [1, 2, 3], HPRE=",".join("c%d" % i for i in range(259)) + "\n", DPRE=",".join(str(i) for i in range(257)) + ",", DPOST=",z\n" + "," * 258 + "\n", ALPHABET="a,\"", GOOD=1, ANYTYPES=0, LAST=2, ERR=1, steps=40000000))
HQ = 1 | 2 | 4 | 8 | 16
prop("C17", fields("plain", 0, dict(HSYM=4, DSYM=0, SELS=1, QRS=1), dict(HSYM=4, DSYM=1, SELS=1, QRS=2), [4, 5, 6, 7], HPRE="", HPOST="", OPS=HQ, DPRE="\nx,y\n", DPOST="", ALPHABET="ab,\n\r", ANYTYPES=0, ERR=1)
     + fields("quote", 6, dict(HSYM=5, DSYM=0, SELS=0, QRS=2), dict(HSYM=6, DSYM=0, SELS=1, QRS=2), [5, 6, 7], HPRE="", HPOST="", OPS=HQ, DPRE="\nx,y\n", DPOST="", ALPHABET="a,\"\n", ANYTYPES=0)
     + fields("quote,escape multiline", 10, dict(HSYM=5, DSYM=0, SELS=1, QRS=1), dict(HSYM=6, DSYM=0, SELS=1, QRS=2), [4, 5, 6, 7], HPRE="", HPOST="", OPS=HQ, DPRE="\nx,y\n", DPOST="", ALPHABET="a,\"\\", ANYTYPES=0, ML=0, ERR=1)
     + fields("trim", 14, dict(HSYM=5, DSYM=0, SELS=0, QRS=1), dict(HSYM=6, DSYM=0, SELS=0, QRS=2), [5, 6, 7], HPRE="", HPOST="", OPS=HQ, DPRE="\nx,y\n", DPOST="", ALPHABET="a,\" \\", ANYTYPES=0, ERR=2, SRC=1)
     + fields("errors keep the selection", 6, dict(DSYM=2, SELS=2), dict(DSYM=3, SELS=3), [1, 2, 3, 4], OPS=HQ, DPOST=",b,c\nd,e,f\n", ALPHABET="a,\"", ANYTYPES=0)
     + fields("errors keep the selection, exceptions", 0, dict(DSYM=2, SELS=2, QRS=1), dict(DSYM=3, SELS=2, QRS=2), [1, 2, 3, 4, 5, 6, 7], OPS=HQ, DPOST=",b,c\nd,e,f\n", ALPHABET="a,", ANYTYPES=0, ERR=2)
     + fields("duplicates", 0, dict(HSYM=2, SELS=1, QRS=1), dict(HSYM=3, SELS=2, QRS=1), [4, 5, 7], HPRE="a,b,", HPOST="\n", OPS=1 | 2 | 4 | 16, DPRE="1,2,3\n", DPOST="\n4,5,6\n", DSYM=0, ALPHABET="ab,", ANYTYPES=0, ERR=2)
     + fields("blank lines first", 7, dict(HSYM=4, DSYM=0, SELS=1, QRS=1), dict(HSYM=5, DSYM=0, SELS=1, QRS=1), [5, 6, 7], HPRE="\n\r\n\n", HPOST="\n\n", OPS=HQ, DPRE="x,y\n", DPOST="", ALPHABET="a, \n", ANYTYPES=0, IE=1)
     + fields("packed setup, multiline", 10, dict(HSYM=4, DSYM=0, SELS=1, QRS=1), dict(HSYM=5, DSYM=0, SELS=1, QRS=1), [4, 5, 6, 7], HPRE="", HPOST="", OPS=HQ, DPRE="\nx\",y\n", DPOST="", ALPHABET="a,\"\\", ANYTYPES=0, ML=0, PACKED=1)
     + fields("packed tuple, multiline", 6, dict(HSYM=4, DSYM=0, SELS=1, QRS=1), dict(HSYM=5, DSYM=0, SELS=1, QRS=1), [4, 5, 6, 7], HPRE="", HPOST="", OPS=HQ, DPRE="\nx\",y\n", DPOST="", ALPHABET="a,\"", ANYTYPES=0, ML=0, PACKED=2, ERR=1)
     + fields("long names", 0, dict(HSYM=3, DSYM=0, SELS=1, QRS=1), dict(HSYM=4, DSYM=0, SELS=1, QRS=2), [4, 5, 6, 7], HPRE="a" * 300 + ",b," + "a" * 300, HPOST="\n", OPS=HQ, DPRE="1,2,3\n", DPOST="", ALPHABET="a,", ANYTYPES=0, steps=80000000)
     + fields("300 names", 0, dict(HSYM=2, DSYM=0, SELS=1, QRS=1), dict(HSYM=3, DSYM=0, SELS=1, QRS=1), [4, 5, 7], HPRE="a," + ",".join("c%d" % i for i in range(257)) + ",", HPOST="\n", OPS=HQ, DPRE="1,2,3\n", DPOST="", ALPHABET="ab,", ANYTYPES=0, ERR=1, LAST=2, steps=80000000)
     + fields("long header", 6, dict(HSYM=3, DSYM=0, SELS=1, QRS=2), dict(HSYM=4, DSYM=0, SELS=1, QRS=2), [4, 5, 6, 7], HPRE="a,b," + "h" * 126, HPOST="\n", OPS=HQ, DPRE="1,2,3\n", DPOST="", ALPHABET="a,\"", ANYTYPES=0, SRC=1))


CH = ["int / char,int / on_error / string,string", "object(int,string) / object deduced(char,int) / string", "except-1,int / object(int,non-empty) / char / optional,string", "string,int / int / on_error / string (stored between the steps)"]


def chain(name, setup, q, t, al, ch, reach, pre="", post="", **kw):
    c = dict(SETUP=setup, ALPHABET=al, CHAIN=ch, PRE=pre, POST=post, **kw)
    return generic(name, "chain.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), "%(PRE)r + 0..%(MAXLEN)d bytes of %(ALPHABET)r + %(POST)r, chain " + CH[ch] + " on every record and at the end; callbacks with arbitrary verdicts; setup " + SETUPS[setup]
                   + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[kw.get("ERR", 0)], reach, c)


prop("C18", chain("chain 0", 0, 6, 7, "1a,\n", 0, [1, 2, 3])
     + chain("chain 1", 0, 6, 7, "1a,\n", 1, [1, 2, 3], ERR=1, SRC=1)
     + chain("chain 2", 0, 6, 7, "1a,\n", 2, [1, 2, 3])
     + chain("chain 3", 0, 6, 7, "1a,\n", 3, [1, 2, 3], ERR=1)
     + chain("chain 0, quote,escape multiline", 10, 5, 7, "1,\"\\\n", 0, [1, 2, 3, 4], ERR=1, ML=0, post="\n1,2\n")
     + chain("chain 1, quote limit 1", 6, 5, 7, "1,\"\n", 1, [1, 2, 3, 4], ML=1, pre="5\n", READS=1, SRC=1)
     + chain("chain 2, quote", 6, 5, 7, "1a,\"\n", 2, [1, 2, 3, 4], pre="1,\n", READS=1)
     + chain("chain 3, quote,escape,trim multiline", 14, 5, 7, "1, \"\\\n", 3, [1, 2, 3, 4], ERR=1, ML=0, post="\n\"3\n4\",5\n")
     + chain("chain 0, ignore_empty", 0, 5, 7, "1a,\n", 0, [1, 2, 3], IE=1, READS=1, pre="\n2\n")
     + chain("any bytes", 0, 4, 5, "", 1, [1, 2, 3], pre="1,", ERR=1))


def forms(name, setup, q, t, al, reach=(1, 2, 3), pre="", post="", **kw):
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, **kw)
    return generic(name, "forms.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), "%(PRE)r + 0..%(MAXLEN)d bytes of %(ALPHABET)r + %(POST)r read as int,string in 13 forms (list, tuple, objects, deduced object, iterations with pre-/post-increment, mixed); setup " + SETUPS[setup]
                   + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[kw.get("ERR", 0)], reach, c)


prop("C19", forms("plain", 0, 6, 8, "1a,\n")
     + forms("plain, ignore_empty, file", 0, 6, 8, "1a,\r\n", SRC=1, IE=1, ERR=1)
     + forms("plain, exceptions", 0, 6, 8, "1a,\n", ERR=2)
     + forms("quote multiline", 6, 5, 7, "1,\"\n", (2, 3), ML=0, ERR=1, pre="1,x\n")
     + forms("quote,escape limit 1, exceptions", 10, 5, 7, "1,\"\\\n", (2, 3), ML=1, ERR=2, pre="1,x\n2,\"\n", post="\n3,y")
     + forms("ignore_header", 6, 5, 7, "1,\"\n", (2, 3), IH=1, post="\n3,y\n4,z")
     + forms("selected fields", 0, 5, 6, "1a,\n", (2, 3), MAPPED=1, pre="a,b,c\nx,y,1\n", post=",3\n")
     + forms("trim", 14, 5, 7, "1, \"\n", (1, 2, 3), ML=0)
     + forms("300 records", 0, 3, 4, "1a,\n", (2, 3), pre="1,x\n" * 150 + "\n" * 150, post="\n2,b", IE=1, steps=80000000)
     + forms("any bytes", 0, 4, 5, "", (2, 3), pre="1,x\n", post=",a\n2,b"))


def srcs(name, setup, q, t, al, kset, reach=(1, 2), pre="", post="", err=1, **kw):
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, KSET=kset, ERR=err, **kw)
    return generic(name, "srcs.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), "%(PRE)r + " + ("%d..%d fill bytes + " % (kw["FILL"], kw["FILL"] + kw.get("FILLS", 1) - 1) if "FILL" in kw else "") + "0..%(MAXLEN)d bytes of " + ("%(ALPHABET)r" if al else "any value (NUL included)")
                   + " + %(POST)r; file and buffer in lockstep, every sequence of requests {%(KSET)s}" + (", header queries, selections and skips" if kw.get("HDR") else "") + "; setup " + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[err], reach, c)


prop("C20", srcs("any bytes", 0, 5, 7, "", "0, 1")
     + srcs("any bytes, quote,escape multiline", 10, 5, 6, "", "0, 1", ML=0)
     + srcs("line ends", 0, 6, 8, "a,\r\n", "0, 1, 3")
     + srcs("ignore_empty", 0, 6, 8, "a,\r\n", "0, 1", IE=1, err=2)
     + srcs("ignore_header", 10, 6, 8, "a,\"\\\r\n", "0, 1", IH=1, IE=1, ML=1)
     + srcs("quote,escape multiline", 10, 6, 8, "a,\"\\\r\n", "0, 1", ML=0, err=0)
     + srcs("quote limit 1", 6, 6, 8, "a,\"\r\n", "0, 1", ML=1)
     + srcs("trim", 14, 6, 7, "a,\" \r\n", "1, 5", ML=2)
     + srcs("header", 6, 3, 4, "a,\"\r\n", "0, 1", pre="a,b\n", post="x,y\nz", HDR=1, ML=0)
     + srcs("header exceptions", 0, 3, 4, "ab,\r\n", "0, 1", post="\nx,y\n", HDR=1, IE=1, err=2)
     + srcs("long lines", 10, 3, 4, "a,\"\r\n", "0, 1", pre="a\n\"", post="\r\n\",b\nc\n", FILL=114, FILLS=12, ML=0)
     + srcs("longer lines", 10, 3, 4, "a\"\\\r\n", "0, 1", pre="a\n\"", post="\r\n\",b\nc\n", FILL=234, FILLS=12, ML=0)
     + srcs("lines of 4 K", 10, 2, 3, "a\"\r\n", "0", pre="a\n\"", post="\r\n\",b\nc\n", FILL=4088, FILLS=6, ML=0, steps=40000000)
     + srcs("line of 64 K", 0, 1, 2, "a\r\n", "0", pre="a\n", post="\r\nb", FILL=65532, FILLS=4, steps=80000000)
     + srcs("three hundred records", 0, 2, 3, "a,\r\n", "0", pre="a\r\n\n" * 140, post="\n\r\n\rx\n,\n", err=0, steps=40000000)
     + srcs("many records", 0, 4, 5, "a,\r\n", "0, 1", pre="a\r\n\nb,c\n", post="\n\r\n\rx\n,\n", err=0)
     + modes("cannot be opened", 0, 3, 4, "", "0", CONV=2))


def move(name, setup, q, t, al, reach=(1, 2), pre="", post="", err=1, kset="0, 1", **kw):
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, ERR=err, KSET=kset, **kw)
    return generic(name, "move.cpp", q and dict(MAXLEN=q[0], MOVES=q[1]), t and dict(MAXLEN=t[0], MOVES=t[1]), "%(PRE)r + 0..%(MAXLEN)d bytes of " + (al and "%(ALPHABET)r" or "any value but NUL") + " + %(POST)r, up to %(MOVES)d moves (construction, assignment over parsers in use, back into the moved-from object) at any point, any order of destruction; setup "
                   + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[err] + "; source " + SRCS[kw.get("SRC", 0)], reach, c)


prop("C22", move("plain", 0, (4, 2), (5, 2), "a,\n", SRC=2, kset="1")
     + move("quote,escape multiline", 10, (3, 2), (5, 2), "a,\"\\\n", SRC=2, ML=0, post="\nb,c\n", kset="1")
     + move("exceptions, ignore_empty", 6, (3, 2), (5, 2), "a,\"\n", SRC=1, ML=1, err=2, IE=1, post="\nb,c\n", kset="1")
     + move("selection and header", 0, (2, 1), (2, 2), "a,\n", pre="a,b\n", post=",1\nx,y\n", HDR=1, err=1, kset="0")
     + move("selection, file, flag", 6, (1, 1), (2, 2), "a,\"", pre="\"a\",b\n", post=",1\nx,y\n", HDR=1, SRC=1, err=0, ML=0, kset="0, 1")
     + move("long lines", 10, (2, 2), (3, 2), "a\"\\\n", pre="a\n\"", post="\n\",b\nc,d\n", FILL=121, SRC=2, ML=0, kset="1")
     + move("lines of 4 K", 6, (1, 1), (2, 2), "a\"\n", pre="a\n\"", post="\n\",b\nc,d\n", FILL=4090, FILLS=4, SRC=2, ML=0, kset="1", steps=80000000)
     + move("three moves", 14, (2, 3), (3, 3), "a\"\n", pre="a,1\n", post="\nb,c", ML=0, SRC=2, kset="1")
     + move("line ends", 10, (3, 1), (4, 2), "a\"\\\r\n", SRC=2, ML=0, pre="a\r\n", post="\r\nb\",c\r\n", kset="1")
     + move("CRLF everywhere", 6, (2, 2), (3, 2), "a\"\r\n", SRC=2, ML=0, pre="a,b\r\n\"c\r\n", post="d\",x\r\n\"e\r\nf\",y\r\n\r\n", kset="1")
     + move("continuation just over the first buffer", 6, (1, 1), (2, 2), "a\"\n", SRC=2, ML=0, pre="\"x\ny\"\n\"a\n" + "w" * 120, post="\",c\nd\n", kset="0")
     + move("long continuation lines", 6, (1, 1), (2, 2), "a\"\n", SRC=2, ML=0, pre="\"" + "x" * 140 + "\nb\"\n\"", post="y\n" + "z" * 140 + "\n\",c\n\"d\n" + "w" * 270 + "\"\n", kset="0")
     + move("long line, long continuation", 6, (1, 1), (2, 2), "a\"\n", SRC=2, ML=0, pre="\"b\nc\"\n\"" + "y" * 300, post="\n" + "z" * 200 + "\",c\n\"" + "w" * 150 + "\n" + "v" * 700 + "\"\n", kset="0")
     + move("any bytes", 10, (3, 1), (4, 2), "", SRC=2, ML=0))


def safe(name, setup, q, t, al="", pre="", post="", reach=(1, 2), err=1, calls=(1, 2), **kw):
    opts = {k: kw.pop(k) for k in ("ubsan", "samples", "nval", "time") if k in kw}
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, ERR=err, **kw)
    return generic(name, "safe.cpp", q and dict(MAXLEN=q, CALLS=calls[0]), t and dict(MAXLEN=t, CALLS=calls[1]), "%(PRE)r + " + ("%d..%d fill bytes + " % (kw["FILL"], kw["FILL"] + kw.get("FILLS", 1) - 1) if "FILL" in kw else "") + "0..%(MAXLEN)d bytes " + (al and "of %(ALPHABET)r" or "of any value (NUL included)")
                   + " + %(POST)r; " + ("extract() of 14 types on exactly that range" if kw.get("CONV") == 2 else "converter and splitter, 7 requests" if kw.get("CONV") else "file and buffer, every sequence of 7 requests with at most %(CALLS)d other calls (skip, header, fields, state, iteration)") + "; setup "
                   + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[err] + ("; UBSan traps compiled in" if opts.get("ubsan") else ""), reach, c, **opts)


prop("C23", safe("plain", 0, 4, 5, ubsan=True)
     + safe("quote", 6, 4, 5, err=0, ubsan=True)
     + safe("escape multiline", 11, 4, 5, ML=0, ubsan=True)
     + safe("quote,escape multiline", 10, 4, 5, ML=0)
     + safe("quote,escape limit 1, exceptions", 10, 4, 5, ML=1, err=2)
     + safe("quote,escape,trim multiline", 14, 4, 5, ML=2, ubsan=True)
     + safe("all kinds special", 21, 5, 6, "a\"\\ \n\0,", ML=0, err=0)
     + safe("delimiter ::", 23, 5, 6, "a\":\\\n\0 ", ML=0, IE=1)
     + safe("ignore_header, ignore_empty", 7, 5, 6, "a\"\n\r\0 ,", ML=0, IE=1, IH=1, err=2)
     + safe("trim sides", 20, 4, 5, ML=1)
     + safe("empty delimiter", 5, 3, 4, ML=-1)
     + safe("growth, quoted", 10, 2, 3, "a\"\\\n\0", pre="\"", post="\n\"", FILL=118, FILLS=8, ML=0, calls=(0, 1))
     + safe("growth, two lines", 10, 2, 3, "a\"\\\n", pre="x\n\"a\n", post="\n\"\",\"b\n", FILL=115, FILLS=10, ML=0, calls=(0, 1))
     + safe("growth, blanks", 14, 2, 3, " \"\\\n", pre="\"", post=" \n\"  ,\"", FILL=119, FILLS=8, FILLCH=32, ML=0, calls=(0, 1))
     + safe("growth, escapes", 11, 2, 3, "a\\\n\r", pre="a,", post="\nb\\\n", FILL=118, FILLS=8, FILLCH=92, ML=0, calls=(0, 1))
     + safe("growth, 256", 6, 2, 3, "a\"\n\r", pre="\"", post="\r\n\"", FILL=248, FILLS=10, ML=0, calls=(0, 1))
     + safe("growth, 1024 to 4096", 10, 1, 2, "\"\\\n", pre="\"" + "g" * 1022 + "\n" + "h" * 1026 + "\n", post="\r\n\"", FILL=2036, FILLS=6, ML=0, calls=(0, 1), steps=80000000)
     + safe("many columns", 23, 2, 3, "a\":\n", pre="a::" * 257, post="::b", calls=(0, 1), steps=80000000)
     + safe("many lines", 10, 2, 3, "\"\\\n", pre="\"" + "a\n" * 257, post="\n\"", ML=0, calls=(0, 1), steps=80000000)
     + safe("converter plain", 0, 5, 6, CONV=1, ubsan=True)
     + safe("converter quote,escape,trim", 14, 4, 5, CONV=1, ubsan=True)
     + safe("converter ::", 23, 5, 6, "a\":\\ \0", CONV=1, err=2)
     + safe("converter trim sides", 19, 4, 5, CONV=1, err=0)
     + safe("extract", 0, 5, 6, CONV=2, ubsan=True)
     + safe("extract of words", 0, 4, 5, "truefals01", CONV=2)
     + safe("extract of long numbers", 0, 3, 4, "0129-", CONV=2, pre="-12345678901234567", post="9", ubsan=True, reach=(1,))
     + safe("converter long delimiter", 14, 4, 5, "a:\" ", CONV=1, DELIM=":::::::::::: ::::::::", err=0)
     + safe("converter longer than the line", 0, 5, 6, "ab", CONV=1, DELIM="abababababababababababababababababababab")
     + safe("long delimiter", 10, 4, 5, "a:\n", DELIM="::::::::", pre="a::::", post=":", ML=0))


OPSN = {1: "skip", 2: "use_fields", 3: "header", 4: "field_exists", 5: "chain of alternatives", 6: "iteration", 7: "move"}


def twin(name, q, t, al, kset, opset=(), calls=(0, 1), reach=(1, 2), pre="", post="", err=1, opts="", delim=",", **kw):
    """lockstep comparison: TWIN=0 the single header under options opts; TWIN=k packing k of setup SETUP"""
    opt = {k: kw.pop(k) for k in ("samples", "nval", "time", "native") if k in kw}
    c = dict(ALPHABET=al, KSET=kset, PRE=pre, POST=post, ERR=err, DELIM=delim, **kw)
    if opset:
        c["OPSET"] = ", ".join(map(str, opset))
    if not kw.get("TWIN"):
        full = ["N::" + x for x in opts.split() ] + (["N::string_error"] if err == 1 else ["N::throw_on_error"] if err == 2 else [])
        c["OPTS(N)"] = ", ".join(full)
        c["SSP_DISABLE_FAST_FLOAT"] = None
    b = ("single header and modular headers" if not kw.get("TWIN") else "options in the order listed and packing %d of them" % kw["TWIN"]) + " in lockstep on %(PRE)r + " + ("%d..%d fill bytes + " % (kw["FILL"], kw["FILL"] + kw.get("FILLS", 1) - 1) if "FILL" in kw else "") + "0..%(MAXLEN)d bytes of " + (al and "%(ALPHABET)r" or "any value (NUL included)") + " + %(POST)r; requests {%(KSET)s}"
    if kw.get("CONV"):
        b += "; converter, two lines, direct, stored split, returned split"
    elif opset:
        b += "; at most %(CALLS)d other calls of {" + ", ".join(OPSN[o] for o in opset) + "} at any point"
    b += "; options " + (opts.replace("%", "%%") or "none") + ", delimiter %(DELIM)r" if not kw.get("TWIN") else "; setup " + SETUPS[kw["SETUP"]] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + (", ignore_empty" if kw.get("IE") else "") + (", ignore_header" if kw.get("IH") else "")
    b += "; error mode " + ERRS[err]
    return generic(name, "twin.cpp", q is not None and dict(MAXLEN=q, CALLS=calls[0]) or None, t is not None and dict(MAXLEN=t, CALLS=calls[1]) or None, b, reach, c, single=not kw.get("TWIN"), **opt)


Q, E_, TR = "quote<34>", "escape<92>", "trim<32>"
ALLOPS = (1, 2, 3, 4, 5, 6, 7)
prop("C24", twin("any bytes", 4, 5, "", "0, 1", SRC=2)
     + twin("plain", 5, 7, "1a,\n\r", "0, 3, 9", SRC=2)
     + twin("quote,escape multiline", 5, 6, "a,\"\\\n", "0, 1", SRC=2, opts=Q + " " + E_ + " multiline")
     + twin("quote,escape,trim limit 1, exceptions", 5, 6, "a,\" \\\n", "1, 5", opts=" ".join((Q, E_, TR, "multiline_restricted<1>", "ignore_empty")), err=2)
     + twin("trim sides, delimiter ;", 5, 6, "a;\" _\n", "0, 1", opts="quote<34> trim_left<95,32> trim_right<32>", delim=";")
     + twin("delimiter ::, flag", 5, 6, "a:\"\n\\", "1, 7", opts=Q + " " + E_, delim="::", err=0)
     + twin("ignore_header", 4, 6, "1a,\n\"", "0, 3", opts=Q + " ignore_header ignore_empty", IH=1, SRC=2)
     + twin("header and fields", 3, 4, "1a,\n", "0, 1", opset=(2, 3, 4, 1), calls=(1, 2), pre="a,b\n", post=",1\nx,y\n", opts=Q)
     + twin("header of anything", 3, 4, "ab,\"\n", "1", opset=(2, 3, 4, 7), calls=(1, 2), post="\nx,y\nz,w\n", opts=Q, err=2)
     + twin("chains and iteration", 4, 5, "12a,\n", "3", opset=(5, 6, 7, 1), calls=(2, 2), opts=Q, post="\n2,b\n")
     + twin("restrictions", 4, 5, "1235-,", "9, 10, 11, 12, 13, 14, 15", post="\n4,a\n")
     + twin("types", 4, 5, "1ab,-", "2, 4, 5, 6, 7, 30", post="\n1,0\n")
     + twin("more types", 4, 5, "1a,0t", "16, 17, 18, 19", post="\n1,0\n")
     + twin("long lines", 3, 4, "a\"\\\n", "0, 1", pre="a\n\"", post="\r\n\",b\nc\n", FILL=118, FILLS=8, SRC=2, opts=Q + " " + E_ + " multiline")
     + twin("converter", 4, 5, "1a,\"\\", "0, 1, 3, 30", CONV=1, opts=Q + " " + E_)
     + twin("converter, exceptions", 4, 5, "1:\" ", "1, 2, 8, 16", CONV=1, opts=Q + " " + TR, delim="::", err=2)
     + twin("empty delimiter", 2, 3, "", "0, 1", delim="", reach=(2,)))
prop("C27", twin("two options, one setup", 6, 8, "a,\"\\\n", "0, 1", TWIN=1, SETUP=10, ML=0)
     + twin("tuple of options", 6, 8, "a,\"\\\n", "1, 3", TWIN=2, SETUP=10, ML=1, IE=1, SRC=1)
     + twin("reversed in a setup", 6, 8, "a,\" \\\n", "0, 1", TWIN=3, SETUP=14, ML=2, IH=1)
     + twin("rotated in a tuple", 6, 8, "a,\" \\\n", "0, 1", TWIN=4, SETUP=14, ML=0, IE=1, IH=1, err=2)
     + twin("setup of a setup", 6, 8, "a,\"\n", "0, 1", TWIN=5, SETUP=6, ML=1, IH=1)
     + twin("setup of a tuple", 6, 8, "a,\" \n", "0, 1", TWIN=6, SETUP=7, ML=0, IE=1, IH=1, err=0)
     + twin("three setups deep", 6, 8, "a;\" _\n", "0, 1", TWIN=7, SETUP=20, ML=0, IE=1)
     + twin("reversed", 6, 8, "a,\"\\^\n", "0, 1", TWIN=8, SETUP=13, ML=1, IE=1, IH=1, err=2)
     + twin("rotated", 6, 8, "a, \t-\n", "0, 1", TWIN=9, SETUP=19, IE=1, IH=1)
     + twin("first two swapped", 6, 8, "a,\"\\\n", "0, 1", TWIN=10, SETUP=10, ML=1, IE=1)
     + twin("rotated, multiline", 6, 8, "a,\\ \n", "0, 1", TWIN=9, SETUP=12, ML=1)
     + twin("header and fields, packed", 3, 4, "1a,\n\"", "0, 1", TWIN=1, SETUP=6, opset=(2, 3, 4, 1), calls=(1, 2), pre="a,b\n", post=",1\nx,y\n", ML=0)
     + twin("header of anything, reversed", 3, 4, "ab,\"\n", "1", TWIN=8, SETUP=14, opset=(2, 3, 4), calls=(1, 2), post="\nx,y\n\"z\",w\n", ML=1, err=2)
     + twin("iteration, tuple", 5, 6, "12a,\"\n", "3", TWIN=4, SETUP=10, opset=(5, 6, 7), calls=(1, 2), ML=0, post="\n2,b\n")
     + twin("converter, nested", 5, 6, "1a,\"\\", "0, 1, 3", TWIN=6, SETUP=10, CONV=1)
     + twin("converter, reversed", 5, 6, "1,\" \\", "1, 2, 16", TWIN=8, SETUP=21, CONV=1, err=2)
     + [j for k in range(1, 8) for j in twin("every position %d" % k, 4, 5, "a,\"\\ -\n", "0, 1", TWIN=20 + k, SETUP=24, ML=1, IE=1, IH=1, pre="h\n\n", post="-\n\nb,_c\n")]
     + [j for k in range(0, 8) for j in twin("every position, reversed %d" % k, 4 if k in (0, 3, 5) else None, 5, "a,\"\\ -\n", "0, 1", TWIN=40 + k, SETUP=24, ML=1, IE=1, IH=1, err=2, pre="h\n\n", post="-\n\nb,_c\n")])


def views(name, setup, q, t, al, pre="", post="", reach=(1, 2), err=1, **kw):
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, ERR=err, **kw)
    return generic(name, "views.cpp", q and dict(MAXLEN=q[0], QRS=q[1], RECS=1), t and dict(MAXLEN=t[0], QRS=t[1], RECS=2), "%(PRE)r + " + ("%d..%d fill bytes + " % (kw["FILL"], kw["FILL"] + kw.get("FILLS", 1) - 1) if "FILL" in kw else "") + "0..%(MAXLEN)d bytes of " + (al and "%(ALPHABET)r" or "any value but NUL") + " + %(POST)r; "
                   + ("views and split ranges of a converter, up to %(QRS)d further conversions" if kw.get("CONV") else "views of any %(RECS)d record(s) read as columns, object, variant or chain, up to %(QRS)d queries (end, line, position, header, fields, selections) after it") + "; setup "
                   + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[err] + "; source " + SRCS[kw.get("SRC", 0)], reach, c)


prop("C28", views("plain", 0, (4, 1), (6, 1), "a,\n", SRC=2)
     + views("quote multiline", 6, (4, 1), (5, 1), "a,\"\n", SRC=2, ML=0, post="\nb,c\n")
     + views("quote,escape,trim multiline, exceptions", 14, (4, 1), (5, 1), "a\" \\\n", SRC=1, ML=1, err=2, post=",b\nb,c\n")
     + views("any bytes", 0, (3, 1), (4, 2), "", SRC=2, pre="a,b\n", post=",x\ny,z\n")
     + views("header and fields", 6, (2, 2), (3, 2), "a,\n", pre="a,b\n\"", post="\",1\nx,y\n", ML=0)
     + views("long record, short next", 6, (2, 1), (3, 1), "a\"\n", pre="a,\"", post="\"\nb\nc,d\n", FILL=118, FILLS=12, ML=0, SRC=2)
     + views("short record, long next", 10, (2, 1), (3, 1), "a\"\\\n", pre="a,b\n\"x\",", post="\nc,d\n", FILL=118, FILLS=12, ML=0, SRC=2)
     + views("growing records", 0, (3, 1), (3, 2), "a,\n", pre="a\n" + "b" * 130 + "\n" + "c" * 100 + ",", post="\n" + "d" * 300 + "\ne", FILL=20, FILLS=8, SRC=2)
     + views("records of 4 K", 6, (1, 1), (2, 1), "a\n", pre="a\n\"", post="\",c\n" + "d" * 5000 + "\ne", FILL=4085, FILLS=10, SRC=2, ML=0, steps=80000000)
     + views("header longer than the records", 6, (2, 2), (3, 2), "a,\"", pre="a," + "h" * 140 + "\n", post="\nx,y\n", SRC=2)
     + views("ignore_header, ignore_empty", 6, (4, 1), (6, 1), "a,\n", pre="h\n\n", post=",\n\nx,y", IH=1, IE=1, SRC=2, err=0)
     + views("converter plain", 0, (5, 2), (7, 2), "1a,", CONV=1)
     + views("converter quote,escape", 10, (5, 2), (6, 2), "1,\"\\", CONV=1, err=2)
     + views("converter trim", 14, (5, 2), (6, 2), "1,\" \\", CONV=1, err=0))


def again(name, setup, q, t, al, kset, pre="", post="", reach=(1, 2), err=1, **kw):
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, ERR=err, KSET=kset, **kw)
    return generic(name, "resplit.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), "%(PRE)r + bytes of " + (al and "%(ALPHABET)r" or "any value but NUL") + " + %(POST)r, then a second line, %(MAXLEN)d bytes in all, same converter; each split converted twice to any of {%(KSET)s} from the stored split, the returned split, in another converter, in a converter of its own; against converting the line directly; setup "
                   + SETUPS[setup] + "; error mode " + ERRS[err], reach, c)


prop("C29", again("plain", 0, 5, 7, "1a,", "0, 1, 3")
     + again("plain, any bytes", 0, 3, 4, "", "0, 1", pre="1,")
     + again("plain objects, exceptions", 0, 5, 6, "1a,", "16, 30, 6, 18", err=2)
     + again("delimiter ::", 1, 5, 7, "1:a", "1, 3, 17", err=0)
     + again("quote", 6, 5, 6, "1,\"a", "0, 1, 2")
     + again("quote,escape", 10, 4, 6, "1,\"\\", "0, 1, 3, 16")
     + again("quote,escape, exceptions", 10, 4, 6, "1,\"\\", "1, 5, 30", err=2)
     + again("quote,escape,trim", 14, 4, 6, "1,\" \\", "1, 4, 7", err=0)
     + again("escape", 11, 5, 6, "1,\\a", "0, 1")
     + again("trim sides", 19, 5, 6, "1, \t-", "1, 3")
     + again("many columns", 0, 3, 4, "1,", "0, 1", LINES=1, reach=(2,), pre="1," * 256, steps=80000000)
     + again("empty delimiter", 5, 2, 3, "1,", "0, 1", reach=(2,))
     + again("empty delimiter, exceptions", 5, 2, 3, "1,", "0, 1", err=2, reach=(2,))
     + again("typed", 0, 4, 5, "1-0,t", "4, 5, 6, 7, 8, 17", LINES=1, post=",1", NCONV=2))


def alloc(name, setup, q, t, al, ops, pre="", post="", reach=(1, 2), err=1, **kw):
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, ERR=err, OPSET=", ".join(map(str, ops)), **kw)
    return generic(name, "alloc.cpp", q and dict(MAXLEN=q[0], CALLS=q[1]), t and dict(MAXLEN=t[0], CALLS=t[1], FAULTS=2), "%(PRE)r + " + ("%d..%d fill bytes + " % (kw["FILL"], kw["FILL"] + kw.get("FILLS", 1) - 1) if "FILL" in kw else "") + "0..%(MAXLEN)d bytes of %(ALPHABET)r + %(POST)r; every sequence of at most %(CALLS)d calls of {"
                   + ", ".join((COPS if kw.get("CONV") else AOPS)[o] for o in ops) + "}, each allocation of each run failing" + (" (thorough: each pair)" ) + ", then use, move and destruction; setup " + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[err]
                   + ("" if kw.get("CONV") else "; source " + SRCS[kw.get("SRC", 2)]), reach, c, failalloc=True)


AOPS = ["one column", "two columns", "int and view", "tied object", "get_object", "restrictions", "skip", "chain", "iterate", "iterate_object", "select a", "select b,a", "header", "raw_header", "field_exists", "move and back", "assign a new parser"]
COPS = ["one column", "two columns", "int and view", "tied object", "convert_object", "split", "returned split", "stored split", "stored split, optional", "assign a converter in use", "splitter"]
prop("C26", alloc("plain", 0, (3, 3), (4, 3), "1,\n", (1, 2))
     + alloc("quote,escape multiline", 10, (3, 2), (4, 3), "1,\"\\\n", (1, 5), ML=0)
     + alloc("kinds of reading", 6, (2, 2), (3, 2), "1,\"", (0, 1, 2, 3, 4, 5, 6, 7, 8, 9), post="\n2,b\n3,c\n", ML=1)
     + alloc("exceptions", 14, (3, 2), (3, 3), "1, \"\n", (0, 2, 5), err=2, ML=1, post=",1\n")
     + alloc("header and fields", 0, (2, 3), (3, 3), "ab,\n", (1, 10, 11, 12, 13, 14), pre="a,", post="\n1,2\n3,4\n")
     + alloc("header and fields, exceptions", 6, (2, 2), (3, 3), "ab,\"", (1, 10, 11, 12, 13, 14), pre="a,", post="\n1,2\n3,4\n", err=2, ML=0)
     + alloc("moves", 6, (2, 2), (2, 3), "1,\n", (1, 15, 16), pre="1,2\n", post="\n3,4\n", err=0)
     + alloc("growth of a line", 0, (1, 2), (2, 3), "a,\n", (1, 0), pre="1\n", post="b,c\nd", FILL=117, FILLS=6)
     + alloc("growth of a multiline record", 10, (2, 2), (3, 2), "a\"\n", (1, 2), pre="\"", post="\n\",c\nd,e\n\"f\ng\",h\n", FILL=112, FILLS=12, ML=0)
     + alloc("growth over several lines", 10, (1, 2), (2, 2), "a\"", (1,), pre="\"a\n", post="\n" + "b" * 70 + "\n" + "c" * 130 + "\",d\ne,f\n", FILL=60, FILLS=3, ML=0)
     + alloc("ignored lines", 6, (2, 2), (3, 3), "a\n", (0, 6), pre="h\n\n", post="\n\nb\n", IE=1, IH=1)
     + alloc("converter", 10, (3, 2), (4, 2), "1,\"\\", tuple(range(11)), CONV=1)
     + alloc("converter, exceptions", 7, (3, 2), (4, 2), "1, \"", tuple(range(11)), CONV=1, err=2))


UOPS = ["validator", "own type", "object constructor", "tied object with own type", "optional and variant", "chain", "iterate", "iterate_object", "one own type", "skip", "step of a kept iterator", "step of a kept object iterator"]
UCOPS = UOPS[:5] + ["stored split, own type"]


def userexc(name, setup, q, t, al, ops, pre="", post="", reach=(1, 2), err=1, **kw):
    c = dict(SETUP=setup, ALPHABET=al, PRE=pre, POST=post, ERR=err, OPSET=", ".join(map(str, ops)), **kw)
    return generic(name, "userexc.cpp", q is not None and dict(MAXLEN=q) or None, t and dict(MAXLEN=t), "%(PRE)r + 0..%(MAXLEN)d bytes of %(ALPHABET)r + %(POST)r; every sequence of reads {" + ", ".join((UCOPS if kw.get("CONV") else UOPS)[o] for o in ops)
                   + "}, each call into user code throwing; compared with the run in which it does not; setup " + SETUPS[setup] + ("; multiline %d" % kw["ML"] if "ML" in kw else "") + "; error mode " + ERRS[err] + ("" if kw.get("CONV") else "; source " + SRCS[kw.get("SRC", 0)]), reach, c)


prop("C30", userexc("validator and own type", 0, 5, 6, "12,\n", (0, 1))
     + userexc("objects", 0, 5, 6, "12,\n", (2, 3), err=0, SRC=2)
     + userexc("all kinds", 6, 3, 4, "12,\"", (0, 1, 2, 3, 4, 5, 6, 7, 8, 9), pre="1,", post="\n2,b\n", ML=0)
     + userexc("all kinds, exceptions", 6, 3, 4, "12,\"", (0, 1, 2, 3, 4, 8, 9), pre="1,", post="\n2,b\n", err=2, SRC=2)
     + userexc("chains", 10, 4, 5, "12,\"\\\n", (5,), ML=1, SRC=2)
     + userexc("iteration", 0, 4, 5, "12,\n", (6, 7), post="\n1,c\n2,d", IE=1)
     + userexc("kept iterators", 0, 4, 5, "12,\n", (10, 11), post="\n1,c\n2,d", SRC=2)
     + userexc("kept iterators, exceptions", 6, 4, 5, "12,\"\n", (10, 11), post="\n1,c\n2,d", err=2, ML=0)
     + userexc("kept iterator and other reads", 0, 3, 4, "12,\n", (10, 0, 9), pre="1,b\n", post="\n1,c\n2,d", err=0, IE=1)
     + userexc("exceptions", 14, 4, 5, "12,\" \n", (0, 2), err=2, ML=0)
     + userexc("converter", 10, 4, 5, "12,\"\\", (0, 1, 2, 3, 4, 5), CONV=1)
     + userexc("converter, exceptions", 7, 4, 5, "12, \"", (0, 1, 2, 3, 4, 5), CONV=1, err=2))


def floats(name, ty, q, t, al="", pre="", post="", slow=False, reach=(1, 2), **kw):
    c = dict(TYPE=ty, ALPHABET=al, PRE=pre, POST=post, **kw)
    if slow:
        c["SSP_DISABLE_FAST_FLOAT"] = None
    return generic(name + (", strtod" if slow else ""), "floats.cpp", q and dict(MAXLEN=q), t and dict(MAXLEN=t), "one column %(PRE)r + 0..%(MAXLEN)d bytes of " + (al and "%(ALPHABET)r" or "any value (NUL included in extract())") + " + %(POST)r as %(TYPE)s, alone, between other columns, through extract(); " + ("SSP_DISABLE_FAST_FLOAT (strtod)" if slow else "fast float"), reach, c, stub=not slow)


FLA = "19.eE+-naif(x) "
prop("C25", [j for slow in (False, True) for j in
             floats("any bytes", "double", 5, 7, slow=slow) + floats("any bytes float", "float", 5, 7, slow=slow)
             + floats("number characters", "double", 8, 10, FLA, slow=slow)
             + floats("optional", "std::optional<double>", 5, 6, slow=slow) + floats("optional float", "std::optional<float>", 6, 8, "1.e-+ ", slow=slow)
             + floats("infinity", "double", 5, 6, pre="-", post="inity", slow=slow) + floats("nan", "float", 5, 6, pre="nan(", slow=slow)
             + floats("exponents", "float", 6, 8, "09e+-. \0", pre="1.", post="2", slow=slow, reach=(1, 2))
             + floats("hexadecimal", "double", 6, 8, "0x1p.-F", slow=slow)
             + floats("sign", "double", 5, 7, "+- 1\t", post="7", slow=slow)
             + floats("long digits", "double", 8, 12, "123456789", pre="7" * 57, slow=slow, reach=(1,))
             + floats("long digits float", "float", 8, 12, "123456789", pre="0." + "0" * 30 + "7" * 27, slow=slow, reach=(1,))
             + floats("long, anything at the end", "double", 5, 7, "1e-. \0x", pre="7" * 61, slow=slow)
             + floats("long, exponent at the end", "double", 4, 5, "123456789", pre="1" * 58, post="e-4", slow=slow, reach=(1,))
             + floats("between two floats", "float", 4, 6, "0123456789", pre="1.0000000596046447753906250", post="1", slow=slow, reach=(1,))
             + floats("between two large floats", "float", 4, 6, "0123456789", pre="16777217.0000000000", post="1", slow=slow, reach=(1,))
             + floats("very long", "double", 5, 7, "1.e- ", pre="1" * 300, post="e1", slow=slow)],
     ["the floating point value itself is the number parser's (fast_float or strtod): in the symbolic run an arbitrary fixed function of exactly the characters parsed, in native runs the real library"])


def alone(pid, *names):
    """jobs of another property on the single header alone: a violation here is one of C24 unless the modular headers fail alike"""
    out = []
    for j in CHECKS[pid]:
        if j.tier != "thorough":
            k = copy.copy(j)
            k.name, k.single, k.native, k.reach, k.stub, k.bounds = "%s: %s" % (pid, j.name), "alone", False, [], False, "single header alone; " + j.bounds
            k.tier = "thorough"
            out.append(k)
            if j.name in names:
                k = copy.copy(k)
                k.tier, k.defs = "quick", dict(j.defs)
                for b in ("MAXLEN", "TOTAL"):
                    if k.defs.get(b, 0) >= 4:
                        k.bounds = k.bounds.replace("..%d " % k.defs[b], "..%d " % (k.defs[b] - 1)).replace("at most %d " % k.defs[b], "at most %d " % (k.defs[b] - 1))
                        k.defs[b] -= 1
                out.append(k)
    missing = set(names) - {j.name for j in CHECKS[pid]}
    assert not missing, missing
    return out


CHECKS["C24"] += (alone("C01", "skipping, ignore_empty") + alone("C02", "row delimiter aab flag") + alone("C03", "row quote,trim message") + alone("C04", "row two escapes,quote flag") + alone("C05", "row quote,escape,trim blank/tab flag")
                  + alone("C06", "quote,escape", "long quoted lines") + alone("C07", "limit 2 quote,escape") + alone("C08", "all kinds") + alone("C09", "int ..any", "ss::int8 ..any", "ss::uint8 ..any", "unsigned short 65..any", "long -92233720368547758..any", "signed char ..any")
                  + alone("C10", "bool ..any", "char ..any", "std::optional<int> ..any", "variant int,bool,string", "variant bool,ss::int8") + alone("C11", *["restrictions %d %s" % (g, ERRS[e]) for g, e in ((0, 0), (1, 1), (2, 2), (3, 0), (4, 0), (5, 1), (6, 2))])
                  + alone("C12", *[j.name for j in CHECKS["C12"] if "4, 6" in j.name or j.name.startswith("12 types") or "12x" in j.name]) + alone("C13", "quote,escape limit 1", "converter reuse") + alone("C14", "restrictions", "cannot be opened", "converter")
                  + alone("C15", "plain, exceptions, file", "restrictions", "quote,escape multiline", "quote limit 2, exceptions") + alone("C16", "any subset, any time", "errors between") + alone("C17", "duplicates", "errors keep the selection") + alone("C18", "chain 0", "chain 1", "chain 2", "chain 3")
                  + alone("C19", "plain", "plain, exceptions", "selected fields") + alone("C20", "line ends") + alone("C21", "quote multiline limit 1, ignore_empty") + alone("C22", "exceptions, ignore_empty", "selection and header")
                  + alone("C23", "quote,escape,trim multiline", "growth, two lines", "converter ::", "extract") + alone("C25", "any bytes, strtod", "any bytes float, strtod", "optional, strtod") + alone("C26", "kinds of reading", "header and fields, exceptions", "growth over several lines", "converter")
                  + alone("C28", "header and fields", "converter trim") + alone("C29", "quote,escape", "typed") + alone("C30", "all kinds", "kept iterators", "converter"))


def apart(name, quick, thorough, al, kset="0, 3", opset="0", reach=(1, 2), **kw):
    """quick/thorough: (bytes of the first input, of the second, calls on each)"""
    jobs = []
    for tier, z in (("quick", quick), ("thorough", thorough)):
        if z:
            d = dict(LENA=z[0], LENB=z[1], STEPS=z[2], ALPHABET=cstr(al), KSET=kset, OPSET=opset, **{k: cstr(v) if isinstance(v, str) and k not in ("KSETB",) else v for k, v in kw.items()})
            jobs.append(Job(name, "apart.cpp", tier, d, reach=reach, shared=True, bounds="two objects (%s) on own inputs %r + 0..%d and %r + 0..%d bytes of %r, each + %r, %d calls on each (%s; requests %s), every interleaving against each alone; no write to storage shared by threads; setup %s; error mode %s; source %s" % (
                ["parsers", "converters", "parser and converter", "parsers of one file", "parsers of two setups"][kw.get("KIND", 0)], kw.get("PRE", ""), z[0], kw.get("PREB", kw.get("PRE", "")), z[1], al, kw.get("POST", ""), z[2], opset, kset,
                SETUPS[kw.get("SETUP", 0)], ERRS[kw.get("ERR", 0)], SRCS[kw.get("SRC", 0)])))
    return jobs


prop("C31", apart("plain", (3, 3, 2), (4, 4, 3), "a1,\n")
     + apart("quote, message", (2, 2, 2), (3, 3, 3), "a,\"\n", kset="0, 1", ERR=1, SETUP=6, POST="a,b\n")
     + apart("multiline", (2, 2, 2), (3, 3, 3), "a\"\n\\", kset="0", SETUP=10, ML=0, POST="a\"\n1\n", ERR=1)
     + apart("exceptions, files", (2, 2, 2), (3, 3, 3), "a1,\n", ERR=2, SRC=1, POST="2\n")
     + apart("one file", (3, 0, 3), (5, 0, 4), "a1,\n", KIND=3, ERR=1, POST="a,1\n2")
     + apart("calls", (1, 0, 2), (3, 2, 3), "1,\n", kset="0", opset="0, 1, 2, 3, 4, 5, 6", PRE="a,b\n", POST="2,c\n3\n", ERR=1, reach=[1, 2])
     + apart("converters", (2, 2, 2), (4, 4, 2), "a1,\n", kset="3, 5, 6", KIND=1, ERR=1)
     + apart("converters, restrictions", (2, 2, 2), (3, 3, 3), "ab1,\n", kset="9, 12", KIND=1, ERR=1, MORE=1, PRE="3,")
     + apart("converters, quote,escape,trim", (2, 2, 2), (3, 3, 3), "a \"\\,", kset="0, 1", KIND=1, SETUP=14, ERR=2)
     + apart("parser and converter", (3, 2, 2), (4, 3, 3), "a1,\n", kset="1, 7", KSETB="2, 5", KIND=2, ERR=1, POST="3\n")
     + apart("two setups", (2, 2, 2), (3, 3, 3), "a \",\n", kset="0, 1", KIND=4, SETUP=6, OTHER=16, ERR=1)
     + apart("two delimiters", (2, 2, 2), (3, 3, 3), "a,;\n", kset="0, 1", DELIMB=";", ERR=1)
     + apart("two delimiters, calls", (1, 1, 2), (2, 2, 2), "1,;\n", kset="1", opset="0, 2, 3", PRE="a,b\n", PREB="b;a\n", POST="2,c\n", DELIMB=";", ERR=1, SRC=1)
     + apart("converters, two delimiters", (2, 2, 2), (3, 3, 3), "a1,;", kset="1, 3", KIND=1, DELIMB=";;", ERR=1)
     + apart("numbers", (2, 2, 2), (3, 3, 3), "1-,.\n", kset="14, 15", KIND=1, ERR=1, MORE=1)
     + apart("numbers, strtod", (2, 2, 2), (3, 3, 3), "1-,.\n", kset="14, 15", KIND=1, ERR=1, MORE=1, SSP_DISABLE_FAST_FLOAT=1)
     + apart("long numbers, strtod", (1, 1, 2), (2, 2, 2), "1-,.\n", kset="14, 15", KIND=1, MORE=1, PRE="1" * 64, PREB="2." + "3" * 70, SSP_DISABLE_FAST_FLOAT=1)
     + apart("long lines", (1, 1, 2), (2, 2, 2), "1,\n", kset="0, 1", opset="0, 1", PRE="a" * 130, PREB="b" * 260, SRC=1, ERR=1, POST="\n1\n"))


def args(name, quick, thorough, al, kset="0, 3", opset="0", reach=(1, 2), **kw):
    """quick/thorough: (symbolic bytes, calls)"""
    jobs = []
    for tier, z in (("quick", quick), ("thorough", thorough)):
        if z:
            d = dict(MAXLEN=z[0], CALLS=z[1], ALPHABET=cstr(al), KSET=kset, OPSET=opset, **{k: cstr(v) if isinstance(v, str) else v for k, v in kw.items()})
            jobs.append(Job(name, "args.cpp", tier, d, reach=reach, bounds="%s %r + 0..%d bytes of %r + %r; %d calls of %s with requests %s; arguments overwritten or destroyed after each call, results compared again at the end; delimiter %r; setup %s; error mode %s; source %s" % (
                ["parser on", "converter on lines"][kw.get("KIND", 0)], kw.get("PRE", ""), z[0], al, kw.get("POST", ""), z[1], opset, kset, kw.get("DELIM", "that of the setup"), SETUPS[kw.get("SETUP", 0)], ERRS[kw.get("ERR", 0)], SRCS[kw.get("SRC", 0)])))
    return jobs


prop("C32", args("plain", (5, 3), (7, 4), "a1,\n", kset="0, 1, 3", ERR=1)
     + args("exceptions, file", (5, 3), (6, 4), "a1,\n", kset="0, 3, 5", ERR=2, SRC=1)
     + args("long delimiter", (3, 3), (4, 4), "ad\n", kset="0, 1", DELIM="dddddddddddddddddd", PRE="bdddddddddddddddddd", POST="\n2\n", ERR=1)
     + args("long values", (3, 3), (4, 3), "a,\n", kset="0, 1, 5, 7", PRE="a" * 40 + "," + "b" * 40 + "\n" + "c" * 40, POST="\n" + "d" * 30 + "\n", ERR=1)
     + args("calls", (2, 3), (3, 4), "1a,\n", kset="0, 3", opset="0, 1, 2, 3, 4, 5, 6, 7", PRE="a,b\n", POST="2,c\n3\n", ERR=1)
     + args("calls, exceptions, file", (2, 3), (3, 4), "1a,\n", kset="0, 3", opset="0, 1, 2, 3, 5, 6, 7", PRE="a,b\n", POST="2,c\n3\n", ERR=2, SRC=1)
     + args("calls, multiline", (2, 3), (3, 4), "a\"\n,", kset="0, 1", opset="0, 1, 4, 5", PRE="a,b\n", POST="2,\"c\n3\"\n", ERR=1, ML=0, SETUP=6, SRC=1)
     + args("converter, other delimiters", (3, 2), (4, 3), "a;,", kset="0, 1", KIND=1, ERR=1, DELIMS=",;")
     + args("converter", (5, 2), (6, 3), "a1,", kset="0, 1, 3, 5, 6, 7", KIND=1, ERR=1)
     + args("converter, exceptions", (5, 2), (7, 3), "a1,", kset="0, 1, 3", KIND=1, ERR=2)
     + args("converter, long delimiter", (4, 2), (5, 3), "ad", kset="0, 1", KIND=1, ERR=1, DELIM="dddddddddddddddddd", PRE="bdddddddddddddddddd", reach=[1])
     + args("converter quote,escape,trim", (4, 2), (5, 3), "a \"\\,", kset="0, 1", KIND=1, SETUP=14, ERR=1))


def bounded(name, quick, thorough, al, forms="0, 1, 3", reach=(1,), lines=0, **kw):
    """quick/thorough: (symbolic bytes in the unit, repetitions)"""
    jobs = []
    for tier, z in (("quick", quick), ("thorough", thorough)):
        if z:
            d = dict(NSYM=z[0], REPS=z[1], ALPHABET=cstr(al), FORMS=forms, LINES=lines, **{k: cstr(v) if isinstance(v, str) else v for k, v in kw.items()})
            jobs.append(Job(name, "bounded.cpp", tier, d, reach=reach, steps=40000000, count=True, bounds="%r + %d times (%r + %d bytes of %r + %r) + %r; read with forms %s; work and memory against the length of the input and of the longest record (%s); setup %s; error mode %s; source %s" % (
                kw.get("PRE", ""), z[1], kw.get("UPRE", ""), z[0], al, kw.get("UPOST", "\n"), kw.get("POST", ""), forms, "the longest line" if not lines else "%d units" % lines, SETUPS[kw.get("SETUP", 0)], ERRS[kw.get("ERR", 0)], SRCS[kw.get("SRC", 0)])))
    return jobs


prop("C33", bounded("records", (2, 1000), (4, 3000), "a1,\n", forms="0, 1, 2, 3, 4, 5", ERR=1)
     + bounded("records, file", (2, 1000), (4, 3000), "a1,\n", forms="0, 1, 2, 3, 4, 5", SRC=1)
     + bounded("records, exceptions", (2, 1000), (3, 3000), "a1,\n", forms="0, 1, 5", ERR=2)
     + bounded("empty lines", (4, 1500), (6, 3000), "\n\r", forms="0, 3", IE=1, SRC=1, UPOST="")
     + bounded("quote,escape,trim", (3, 500), (4, 2000), "a \"\\,", SETUP=14, ERR=1)
     + bounded("long line", (3, 2000), (4, 8000), "a1, ", UPOST="", SETUP=16, POST="\n1\n1\n", ERR=1, forms="0, 1")
     + bounded("long column of escapes", (3, 2000), (4, 8000), "a\\\"", UPOST="", PRE="\"", SETUP=10, ERR=1, forms="0")
     + bounded("long column in quotes", (3, 2000), (4, 8000), "a\",", UPOST="", PRE="\"", SETUP=6, ERR=1, forms="0")
     + bounded("long column of spacing", (3, 2000), (4, 8000), "a ,", UPOST="", SETUP=16, forms="0")
     + bounded("long line first", (2, 1000), (4, 2000), "a1,\n", PRE="a" * 30000 + "\n", SRC=1, ERR=1)
     + bounded("objects, alternatives", (3, 600), (4, 3000), "a1,\n", forms="6, 7", ERR=1, UPOST="\r\n", SRC=1)
     + bounded("header", (3, 600), (4, 3000), "a1,\n", forms="1, 8", ERR=1, PRE="a,b\n")
     + bounded("multiline limit", (3, 400), (4, 2000), "a\",\n", lines=1, SETUP=6, ML=1, ERR=1, SRC=1)
     + bounded("multiline limit, escape", (3, 600), (4, 2000), "a\"\\\n", lines=1, SETUP=10, ML=2, ERR=1, forms="0, 3")
     + bounded("long records", (3, 200), (4, 400), "a1,\n", UPRE="a" * 170 + ",", ERR=1, forms="0, 1, 5")
     + bounded("long records, quote,escape,trim, file", (3, 100), (3, 400), "a \",\n", UPRE="\"" + "ab\\c" * 40 + "\" ,", SETUP=14, ERR=1, SRC=1)
     + bounded("many columns", (3, 100), (4, 400), "a,\n", UPRE="a," * 60, ERR=1)
     + bounded("multiline, four lines", (2, 150), (2, 1000), "a1 ,", lines=1, UPRE="1,\"a\nbb\n\nc\n", UPOST="b\"\n", SETUP=14, ML=4, ERR=1, SRC=1)
     + bounded("multiline", (3, 600), (4, 2000), "a1 ,", lines=1, UPRE="1,\"a\n", UPOST="b\"\n", SETUP=6, ML=0, ERR=1)
     + bounded("multiline, escape, file", (3, 600), (4, 2000), "a1 ,", lines=1, UPRE="1,\\\n", UPOST="b\n", SETUP=11, ML=2, SRC=1))


def portable(pid, *names, key="NOUNIX", suffix=", fgets", what="line reader of non-unix platforms; "):
    """jobs on files again with the line reader of the other platforms (macOS, Windows: no getline)"""
    out = []
    for j in CHECKS[pid]:
        if j.name in names:
            k = copy.copy(j)
            k.name, k.bounds, k.defs = j.name + suffix, what + j.bounds, dict(j.defs, **{key: 1})
            out.append(k)
    missing = set(names) - {j.name for j in CHECKS[pid]}
    assert not missing, missing
    return out


def unsigned_char(pid, *names):
    """jobs again for platforms on which plain char is unsigned (ARM, PowerPC)"""
    return portable(pid, *names, key="UCHAR", suffix=", unsigned char", what="plain char unsigned; ")


for _c, _n in {"C01": ("any bytes", "long line buffer growth", "long line buffer growth 1024 to 4096", "line of 64 K"), "C06": ("long quoted lines",), "C20": ("any bytes", "any bytes, quote,escape multiline", "line ends", "ignore_empty", "long lines", "header"),
               "C21": ("plain any bytes", "long lines", "many blank lines"), "C22": ("long lines",), "C23": ("plain", "quote,escape multiline", "growth, quoted", "growth, two lines"), "C24": ("any bytes", "long lines"),
               "C26": ("plain", "growth of a line", "growth of a multiline record"), "C28": ("long record, short next", "growing records"), "C31": ("long lines",), "C33": ("records, file", "empty lines", "long line first", "long records, quote,escape,trim, file", "multiline limit")}.items():
    CHECKS[_c] += portable(_c, *_n)
CHECKS["C33"] += [j for t, z in (("quick", 2000), ("thorough", 8000)) for j in bounded("long line, file, fgets", (3, z) if t == "quick" else None, (3, z) if t == "thorough" else None, "a1, ", UPOST="", SETUP=16, POST="\n1\n1\n", SRC=1, ERR=1, forms="0, 1", NOUNIX=1)]
CHECKS["C33"] += bounded("long line, file", (3, 2000), (4, 8000), "a1, ", UPOST="", SETUP=16, POST="\n1\n1\n", SRC=1, ERR=1, forms="0, 1")
for _c, _n in {"C02": ("row delimiter , flag",), "C03": ("row quote flag",), "C04": ("row escape flag",), "C05": ("row trim flag",), "C09": ("int ..any", "ss::int8 ..any", "unsigned ..any", "signed char ..any"), "C10": ("bool ..any", "char ..any", "variant char,int"),
               "C11": ("restrictions 2 exception", "restrictions 4 flag"), "C23": ("extract",), "C25": ("any bytes", "any bytes, strtod")}.items():
    CHECKS[_c] += unsigned_char(_c, *_n)
for _c, _n in {"C19": ("plain", "quote,escape limit 1, exceptions"), "C18": ("chain 1",), "C11": ("restrictions 3 flag",), "C10": ("variant int,bool,string",), "C30": ("iteration",)}.items():
    CHECKS[_c] += portable(_c, *_n, key="CXX20", suffix=", C++20", what="compiled as C++20; ")
