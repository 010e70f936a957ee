"""What each check explores."""

DIA = ((",", '"', ""), (",", '"', "\\"), (";", "'", "/"), ("", '"', "\\"), (",", "", "\\"), ("", "", ""))
SYM = ("?", "?", "?")


def T(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def c01(tier):
    out = []
    for dia in DIA:
        out.append({"fn": "h_parser:string", "cfg": {"dialect": dia, "n": T(tier, 4, 6), "strict": "?"}})
    out.append({"fn": "h_parser:string", "cfg": {"dialect": SYM, "n": T(tier, 3, 4), "strict": "?"}})
    # the delimiter as its own escape character
    for dia in (("\\", "", "\\"), ("\\", "'", "\\")):
        out.append({"fn": "h_parser:string", "cfg": {"dialect": dia, "n": T(tier, 3, 5), "strict": "?"}})
    for dia, before in BEFORE:
        out.append({"fn": "h_parser:string", "cfg": {"dialect": dia, "n": T(tier, 3, 5), "strict": "?", "prefix": before}})
    for dia, before in MANY:
        out.append({"fn": "h_parser:string", "cfg": {"dialect": dia, "n": T(tier, 2, 3), "strict": "?", "prefix": before}, "max_steps": 30_000_000})
    for dia, before in BEYOND:
        out.append({"fn": "h_parser:string", "cfg": {"dialect": dia, "n": T(tier, 1, 2), "least": T(tier, 1, 0), "strict": T(tier, False, "?"), "prefix": before,
                                                     "only": T(tier, ",\"", "x,\"\\\n")}, "max_steps": 200_000_000})
    return out


# what comes before the text that is not known
BEFORE = ((DIA[0], 'x,"a""b"\r\n'), (DIA[0], '"a""b",'), (DIA[0], '"a\n'), (DIA[0], 'a"b,c\r'), (DIA[1], '"a""b"\n"a\\"b",\\,c\r'), (DIA[1], 'x\\"y,"\\'),
          (DIA[1], '"a""b","\\\\'), (DIA[3], '"x""y"\n'), (DIA[4], "a\\,b\\\n"), (DIA[2], "'a''b';/'\n"))
MANY = ((DIA[0], 'a,"b""c",d\r\n,"e\n",\n' * 300), (DIA[1], 'a\\,,"b""c\\"",d\r' * 300), (DIA[0], "a,,\"b\"\"\"," * 700))
# cells, rows and texts longer than the numbers of sixteen bits
BEYOND = ((DIA[0], '"' + "a" * 65534), (DIA[1], "a" * 65535), (DIA[1], 'b,"' + 'a"",\\"\n' * 11000), (DIA[0], "a," * 66000), (DIA[0], "a\n" * 66000))


def c02(tier):
    out = []
    for dia in DIA[:2] + DIA[3:5]:
        out.append({"fn": "h_parser:chunks", "cfg": {"dialect": dia, "sizes": T(tier, (2, 2), (2, 2, 2))}})
    out.append({"fn": "h_parser:chunks", "cfg": {"dialect": SYM, "sizes": T(tier, (2, 1), (2, 2))}})
    out.append({"fn": "h_parser:chunks", "cfg": {"dialect": DIA[1], "sizes": (1, 1, 1)}})
    for dia, first in ((DIA[1], ('"a""b', 'c"', "\n", "x\\")), (DIA[0], ('"a""b"\r', '\n"', "", "")), (DIA[4], ("a\\", "\n", "")),
                       (DIA[0], ('a,"b""', '"c",\r\n', "") * 350), (DIA[1], ("ab",) * 1100), (DIA[1], ('"',) * 1100)):
        out.append({"fn": "h_parser:chunks", "cfg": {"dialect": dia, "sizes": T(tier, (1, 1), (2, 2)), "first": first}, "max_steps": 30_000_000})
    for dia, first in ((DIA[1], ('a,"' + "b" * 66000, '"",\\')), (DIA[0], ("a," * 33000 + '"', "\n"))):
        out.append({"fn": "h_parser:chunks", "cfg": {"dialect": dia, "sizes": (1,), "first": first, "only": '",'}, "max_steps": 200_000_000})
    return out


# around the sizes at which the parser's buffers grow
LONG = (4095, 4096, 4097, 8191, 8192, 8193, 12289)


def c03(tier):
    out = []
    for dia in ((",", '"', ""), ("\t", "'", "")):
        for shape in T(tier, (((2, 1),), ((1,), (1,))), (((2, 2), (1, 1)), ((3, 1),), ((1,), (1,), (1,)))):
            out.append({"fn": "h_parser:wellformed", "cfg": {"dialect": dia, "shape": shape}})
    out.append({"fn": "h_parser:wellformed", "cfg": {"dialect": ("?", "?", ""), "shape": ((1, 1),)}})
    for rows, columns in ((1100, 0), (1, 1100), (3, 300)):
        out.append({"fn": "h_parser:wellformed", "cfg": {"dialect": (",", '"', ""), "shape": T(tier, ((1,),), ((1,), (1,))), "only": 'x,"\n', "rows": rows, "columns": columns},
                    "max_steps": 30_000_000})
    out.append({"fn": "h_parser:long_cells", "cfg": {"dialect": (",", '"', ""), "sizes": T(tier, LONG, LONG + (16384, 16385, 32769, 70000))},
                "max_steps": 30_000_000})
    return out


def c05(tier):
    out = [{"fn": "h_parser:strict", "cfg": {"dialect": dia, "n": T(tier, 4, 6)}} for dia in DIA]
    out.append({"fn": "h_parser:strict", "cfg": {"dialect": SYM, "n": T(tier, 3, 4)}})
    for dia, before in BEFORE + MANY[:2]:
        out.append({"fn": "h_parser:strict", "cfg": {"dialect": dia, "n": T(tier, 2, 4), "prefix": before}, "max_steps": 30_000_000})
    return out


def c06(tier):
    out = [{"fn": "h_parser:limit", "cfg": {"dialect": dia, "n": T(tier, 3, 4), "limits": (0, 1, 2, 3)}}
           for dia in (DIA[1], DIA[3])]
    for before in ("ab,c\n", '"a""b",'):
        out.append({"fn": "h_parser:limit", "cfg": {"dialect": DIA[1], "n": T(tier, 2, 3), "limits": (1, 2, 3, 4), "prefix": before}})
    out.append({"fn": "h_detect:failing", "cfg": {"n": T(tier, 1, 2)}})
    out.append({"fn": "h_detect:interrupted", "cfg": {"template": T(tier, "a,b;?\n1,2;3", "a?b;?\n1,2;3"), "only": T(tier, "x;", None)}})
    out.append({"fn": "h_parser:limit_default", "cfg": {"sizes": (131071, 131072, 131073)}, "max_steps": 30_000_000})
    return out


CHECKS = {
    "C01": {"instances": c01, "modules": ["clevercsv.cparser_util", "clevercsv.dialect", "clevercsv.exceptions"]},
    "C02": {"instances": c02},
    "C03": {"instances": c03},
    "C05": {"instances": c05},
    "C06": {"instances": c06},
}


def c04(tier):
    out = []
    shapes = T(tier, (((2, 1),), ((1,), (1,)), ((1,), (), (1,))), (((2, 2),), ((1, 1), (1, 1)), ((3,), (1,))))
    for dia in (("name", "excel"), ("name", "unix"), ("simple", (",", '"', "")), ("simple", (",", '"', "\\")), ("simple", ("?", "?", "")),
                ("csv", (";", "'", "")), ("class", "excel_tab"), ("made", "excel", (("doublequote", False), ("escapechar", "\\")))):
        for shape in shapes:
            out.append({"fn": "h_rw:roundtrip", "cfg": {"dialect": dia, "shape": shape, "total": True}})
    for par, total, without in ((QN, True, '"'), ((("quoting", 1), ("escapechar", "/"), ("doublequote", False)), True, ""), ((("quoting", 3),), False, ""),
                                ((("quoting", 3), ("quotechar", None), ("escapechar", "\\"), ("lineterminator", "\n")), True, ""),
                                ((("doublequote", False),), False, ""), ((("lineterminator", "\r"), ("quotechar", "'")), True, ""),
                                ((("quoting", 5), ("quotechar", "'")), True, ""), ((("quoting", 4), ("delimiter", ";")), True, "")):
        out.append({"fn": "h_rw:roundtrip", "cfg": {"dialect": ("made", "excel", par), "shape": T(tier, ((2, 1),), ((2, 2), (1, 1))), "total": total, "without": without}})
    for times in ((600, 1), (1, 600), (20, 30)):
        out.append({"fn": "h_rw:roundtrip", "cfg": {"dialect": ("name", "excel"), "shape": T(tier, ((1, 1),), ((1, 1), (1,))), "total": True, "times": times, "only": 'x,"\n'},
                    "max_steps": 30_000_000})
    # a known finding
    out.append({"fn": "h_rw:roundtrip", "cfg": {"dialect": ("made", "excel", QN), "shape": ((1,),), "total": False, "only": '"'}})
    return out


QN = (("quoting", 3), ("escapechar", "\\"))


def c19(tier):
    return [{"fn": "h_rw:history", "cfg": {"rows": 3, "steps": T(tier, 4, 6)}},
            {"fn": "h_rw:history", "cfg": {"rows": 2, "steps": T(tier, 4, 6), "bad": (("\0", ",k\n"), ('"', '"x,k\n'))}},
            {"fn": "h_rw:history", "cfg": {"rows": 1, "steps": 2, "more": 1100}, "max_steps": 30_000_000},
            {"fn": "h_rw:history", "cfg": {"rows": 1, "steps": 2, "more": 150, "bad": (("\0", ",k\n"), ('"', '"x,k\n'))}},
            {"fn": "h_rw:interleaved", "cfg": {"sizes": (1, 2), "steps": 2, "between": T(tier, ("write", "drop"), ("nothing", "write", "detect", "drop")),
                                               "only": T(tier, "x,;\"'\\\n", None)}},
            {"fn": "h_rw:failing", "cfg": {"only": T(tier, "x';\\ \t", None)}},
            {"fn": "h_rw:unchanged"}, {"fn": "h_rw:accepted", "cfg": {"n": T(tier, 3, 5)}}]


def c20(tier):
    return [{"fn": "h_rw:dictreader", "cfg": {"ncol": (1, 2), "rows": 2, "maxlen": 3}},
            {"fn": "h_rw:dictwriter", "cfg": {"dialect": ("name", "excel"), "rows": 1}},
            {"fn": "h_rw:dictwriter", "cfg": {"dialect": ("name", "excel"), "rows": 2, "only": "x,", "few": True}},
            {"fn": "h_rw:dict_like_csv", "cfg": {"n": T(tier, 4, 5), "only": "a,;\n", "params": ({}, {"delimiter": ";"})}},
            {"fn": "h_rw:dict_like_csv", "cfg": {"template": "a,b?\n1?\n\n?,\"2\"\n", "only": "a,;\n", "params": (
                {"restkey": "r", "restval": "-"}, {"dialect": "excel-tab", "delimiter": ","}, {"dialect": "unix"}, {"restkey": "a"}, {"quotechar": "'"})}},
            {"fn": "h_rw:dict_like_csv", "cfg": {"template": "a,b\n\"\"?1,2?", "only": "\n,", "params": ({}, {"restval": "-", "restkey": "r"})}},
            {"fn": "h_rw:writer_inputs", "cfg": {"only": T(tier, "a,\"\n", None)}},
            {"fn": "h_rw:failing_rows", "cfg": {"only": T(tier, "a,\"\n", None)}},
            {"fn": "h_rw:names", "cfg": {"only": T(tier, "a,;|'\"\n", None)}},
            {"fn": "h_rw:writer_like_csv", "cfg": {"params": {}, "widths": (2, 1)}}] + [
                {"fn": "h_rw:writer_like_csv", "cfg": {"params": p, "widths": (T(tier, 1, 2), 1)}} for p in PARAMS]


PARAMS = ({"doublequote": False, "escapechar": "\\"}, {"quotechar": None, "quoting": 3, "escapechar": "/"}, {"doublequote": False},
          {"quoting": 3}, {"quoting": 1, "lineterminator": "\n"}, {"quoting": 2, "delimiter": ";"}, {"quoting": 0, "quotechar": "'"},
          {"dialect": "unix", "quoting": 0}, {"dialect": "excel-tab", "escapechar": "\\", "doublequote": False},
          {"skipinitialspace": True, "lineterminator": "\r"}, {"strict": True, "delimiter": "|", "escapechar": None},
          {"lineterminator": "", "quoting": 1}, {"lineterminator": "--"}, {"lineterminator": "", "delimiter": "\t"},
          {"quoting": 4, "quotechar": "'"}, {"quoting": 5, "dialect": "excel-tab"})


CHECKS.update({"C04": {"instances": c04}, "C19": {"instances": c19}, "C20": {"instances": c20}})


def c17(tier):
    return [{"fn": "h_dialect:" + f} for f in ("equality", "order", "transitive", "serial", "validity", "changed")]


def c18(tier):
    return [{"fn": "h_dialect:" + f} for f in ("csv_there", "csv_back", "csv_two")]


CHECKS.update({"C17": {"instances": c17}, "C18": {"instances": c18}})


def c09(tier):
    out = []
    for dia in DIA:
        out.append({"fn": "h_score:abstraction", "cfg": {"dialect": dia, "n": T(tier, 5, 7)}})
    out.append({"fn": "h_score:abstraction", "cfg": {"dialect": SYM, "n": T(tier, 4, 5)}})
    out.append({"fn": "h_score:letters", "cfg": {"n": T(tier, 6, 8)}})
    # many different patterns, long rows, many rows
    for before in ("".join([",".join("x" * k) + "\n" for k in range(1, 141)]), "a,b\n" * 1100 + "c,", ",".join("x" * 1100) + "\n,",
                   '"a,b"\r\n' * 600 + "x", "a,b\n" * 600 + "a,b,c\n" * 600):
        out.append({"fn": "h_score:abstraction", "cfg": {"dialect": (",", '"', "\\"), "n": T(tier, 2, 3), "only": ',\n\\"x', "prefix": before}, "max_steps": 60_000_000})
    # longer than the numbers of sixteen bits
    for before in ("a," * 33000, "a\n" * 33000, '"' + "a" * 65534, 'a,"' + 'a"",\\"\n' * 9500):
        out.append({"fn": "h_score:abstraction", "cfg": {"dialect": (",", '"', "\\"), "n": 1, "least": 1, "only": T(tier, ',"', ',\n\\"x'), "prefix": before}, "max_steps": 200_000_000})
    return out


def c10(tier):
    return [{"fn": "h_score:candidates", "cfg": {"n": T(tier, 3, 4)}},
            {"fn": "h_score:candidates", "cfg": {"n": T(tier, 2, 3), "delimiters": "?"}},
            {"fn": "h_score:candidates", "cfg": {"n": T(tier, 3, 4), "delimiters": ",;|x\n"}},
            {"fn": "h_score:candidates", "cfg": {"n": T(tier, 2, 3), "delimiters": ""}},
            {"fn": "h_score:candidates", "cfg": {"n": T(tier, 2, 3), "encodings": ("ascii", "ASCII", "latin-1", "utf-16", "UTF-8"),
                                                 "only": "".join(map(chr, range(1, 127)))}},
            {"fn": "h_score:candidates", "cfg": {"n": 2, "encodings": ("latin-1", "utf-8"), "only": "\\\xa1\xa7\xb6\xb7\xbf\xab\xe9,'"}},
            {"fn": "h_score:candidates", "cfg": {"n": T(tier, 1, 2), "prefix": "xyz uvw\n" * 9000, "only": ",;\\\"'x"}, "max_steps": 100_000_000},
            {"fn": "h_score:candidates", "cfg": {"n": T(tier, 1, 2), "prefix": "".join(chr(c) for c in range(0xa1, 0x180)), "only": ",\\'\xa1\u0100"}},
            {"fn": "h_score:candidates", "cfg": {"template": "1?http://a.b?,2", "urls": True}},
            {"fn": "h_score:candidates", "cfg": {"template": "x?-www.ex.co?z", "urls": True}},
            {"fn": "h_score:candidates", "cfg": {"template": "a.bc/?'?x", "urls": True}},
            {"fn": "h_score:named_candidates", "cfg": {"n": T(tier, 3, 4)}}]


CHECKS.update({"C09": {"instances": c09}, "C10": {"instances": c10}})


DETECT = "\\\"',;-| \t\na1."


TEXTS = ("a,b\n?,?", "1;2?3\n?;4", "'a'?b\n?", "x\\,?\n?,y", "a-b?c-d?", "\"a\",?\n\"b?", "~?~,a\n`?", "1.5\t?\n2?\t", "?\r\n?\r",
         "1-1-19?;x\n10:00?;y\n")
MORE = ("a,?;?\n1,?;2", "?a?b?", "'?,?'\n1,?", "1?2?3\n4?5", "\\?\\?a?", "a b?c d\n? ?")


def c11(tier):
    out = [{"fn": "h_detect:valid", "cfg": {"n": 2}}]
    out.append({"fn": "h_detect:total", "cfg": {"n": T(tier, 3, 3)}})
    for t in TEXTS + T(tier, (), MORE):
        out.append({"fn": "h_detect:total", "cfg": {"template": t}})
    out.append({"fn": "h_detect:valid", "cfg": {"template": "a?b\n?,", "delimiters": ",x\n"}})
    out.append({"fn": "h_detect:valid", "cfg": {"template": "a;b\n1?2\n", "delimiters": ","}})
    out.append({"fn": "h_detect:valid", "cfg": {"template": "a;b\n?;2\n", "delimiters": "|x"}})
    out.append({"fn": "h_detect:valid", "cfg": {"template": "a,b\n?,2\n", "delimiters": ""}})
    out.append({"fn": "h_detect:valid", "cfg": {"template": "a b\n?,'2'\n", "delimiters": []}})
    out.append({"fn": "h_detect:entry_points", "cfg": {"n": T(tier, 1, 2)}})
    return out


PAIRS = (("a,b;c,d;?,f\n", '"a,b";"c,d"\n"?,f";"g,h"\n'), ("'x;y'?1,2\n", "x;y,1\n1,?\n"), ("10:00;?.5\n", "'10:00'?1.5\n2,3\n"), ("", "1?2\n3;4"))


# the same characters, lines or beginning, in another order
SAME = (('a,"b",\\c\n1,"2",\\?\n', 'a,"b\\",c",\n1,"?\\",2",\n'), ("a,b;c\n?,2;3\n1,2;3\n", "a;b,c\n?;2,3\n1;2,3\n"),
        ("a,b;c,d\n" * 3 + "1;?", "a,b;c,d\n" * 3 + "1,?"), ("1,?\n;\n;\n", "1,;?\n\n;\n"))


def c12(tier):
    out = [{"fn": "h_detect:pure", "cfg": {"n": T(tier, 1, 2)}}, {"fn": "h_detect:pure", "cfg": {"template": "ab?c\n1,?", "limits": T(tier, (2,), (2, 5))}}]
    for a, b in SAME[:T(tier, 3, 4)]:
        out.append({"fn": "h_detect:earlier", "cfg": {"before": a, "template": b, "only": T(tier, ",;x\"\\", None)}})
    out.append({"fn": "h_detect:unordered", "cfg": {"n": T(tier, 2, 3)}, "hashseeds": True})
    out.append({"fn": "h_detect:helpers", "cfg": {"template": T(tier, "a\\?b,c\n1;2,d", "a\\?b,c\n1?2,d")}})
    for a, b in PAIRS[:T(tier, 3, 4)]:
        out.append({"fn": "h_detect:earlier", "cfg": {"before": a, "template": b}})
    for t in TEXTS[:T(tier, 3, 9)]:
        out.append({"fn": "h_detect:unordered", "cfg": {"template": t}, "hashseeds": True})
    return out


def c13(tier):
    out = [{"fn": "h_score:skip", "cfg": {"n": T(tier, 2, 3)}}]
    out.append({"fn": "h_score:forged", "cfg": {"n": 3, "P": T(tier, (0.001, 0.5, 0.75, 1.0), (0.001, 0.3, 0.5, 0.75, 1.0, 1.5)),
                                                "T": T(tier, (1e-10, 0.6, 1.0), (1e-10, 0.5, 0.6, 0.75, 1.0))}})
    out.append({"fn": "h_score:forged", "cfg": {"n": 4, "P": (0.5, 0.75, 1.0), "T": T(tier, (0.6, 1.0), (1e-10, 0.6, 1.0))}})
    for t in TEXTS[:T(tier, 4, 9)]:
        out.append({"fn": "h_detect:skipping", "cfg": {"template": t}})
        out.append({"fn": "h_score:skip", "cfg": {"template": t}})
    # many candidates
    out.append({"fn": "h_detect:skipping", "cfg": {"template": "a,b;c|d-e:f/g~h`i'j\\,\n1,2;3|?-5:6/7~8`9'0\\;", "only": T(tier, "4,;", None)}, "max_steps": 60_000_000})
    return out


SOME = ((",", "", ""), (",", '"', ""), (";", "'", "\\"), ("", "", ""), (" ", '"', "/"))


def c27(tier):
    out = [{"fn": "h_score:scores", "cfg": {"n": 2}},
           {"fn": "h_score:scores", "cfg": {"n": T(tier, 3, 4), "candidates": SOME, "only": ",;'\"\\ \n/a1."}}]
    for t in TEXTS[:T(tier, 4, 9)]:
        out.append({"fn": "h_score:scores", "cfg": {"template": t}})
    out.append({"fn": "h_score:scores", "cfg": {"n": 1, "candidates": SOME, "prefix": 'a,"b;c"\n1.2 ', "suffix": " 'x';\\"}})
    # cells that are quoted in part
    for t in ("\\'?,?;b", "a\\'?;?'", '"?"a,/"?,b'):
        out.append({"fn": "h_score:scores", "cfg": {"template": t, "candidates": SOME + ((";", '"', "\\"), (",", "'", "/"))}})
    # quote characters that can begin a word
    for q in "!\u00bf(":
        out.append({"fn": "h_score:scores", "cfg": {"template": "/?a,?", "candidates": ((";", q, "/"), (",", q, "/"), (";", q, "")), "only": q + ",;/ ab1"}})
    for a, b in PAIRS[:T(tier, 3, 4)]:
        out.append({"fn": "h_score:earlier", "cfg": {"before": a, "template": b, "candidates": SOME + ((";", '"', ""), (",", "'", ""))}})
    # many cells
    out.append({"fn": "h_score:scores", "cfg": {"n": 1, "only": ",a", "candidates": ((",", "", ""),), "prefix": "1,2\n" * 2600 + "#!,$!\n" * 2600}, "max_steps": 200_000_000})
    out.append({"fn": "h_score:history", "cfg": {"template": "1,?\n2;3", "before": ("a,b\n1;2;3\n", "", "'1',?x")}})
    return out


URLS = ("http://a.bc", "https://www.x-y.de/p?q=1&r=%20", "ftp://a.b.co/z:y", "http://localhost:8080/p(q)", "www.ex.org/a_b~c", "a.b.info")


def c26(tier):
    out = []
    for d in (("?", '"', ""), ("?", '"', "\\"), (",", "?", "?"), (",", '"', '"')):
        out.append({"fn": "h_score:masked", "cfg": {"dialect": d, "n": T(tier, 4, 5)}})
    out.append({"fn": "h_score:masked_candidates", "cfg": {"n": T(tier, 3, 4)}})
    for t in ('"a?b"?c', "'?''?'", '"?\\"?"?'):
        out.append({"fn": "h_score:masked_candidates", "cfg": {"template": t}})
    out.append({"fn": "h_score:masked", "cfg": {"dialect": (",", '"', "\\"), "n": 1, "least": 1, "prefix": '"' + "a,b" * 22000, "suffix": '",', "only": ',"'}, "max_steps": 200_000_000})
    for u in (("www.a.de", "www.b.com", "http://c.uk/d?e", "f.gh/"), ("a.de", "b.de", "c.de")):
        out.append({"fn": "h_score:several_urls", "cfg": {"urls": u, "n": 1, "around": T(tier, ", \n", ",; \n\"'|")}})
    out.append({"fn": "h_score:several_urls", "cfg": {"urls": ["www.ab%d.de" % i for i in range(130)], "n": 1, "around": ",", "known": "; "}, "max_steps": 60_000_000})
    for d, before in ((("?", '"', "\\"), '"a,b"\n' * 600), ((",", '"', ""), '"a,"' * 700), ((",", '"', "\\"), '"\\",' * 700)):
        out.append({"fn": "h_score:masked", "cfg": {"dialect": d, "n": 2, "prefix": before, "only": ',x"\\\n'}, "max_steps": 60_000_000})
    out.append({"fn": "h_score:urls", "cfg": {"n": T(tier, 1, 2), "around": ",; \n\"'|", "urls": URLS}})
    return out


CHECKS.update({"C26": {"instances": c26}, "C27": {"instances": c27}})


def c14(tier):
    pool = [(",", "", ""), (",", '"', ""), (",", "'", ""), (",", '"', "\\"), (",", "", "\\"), (" ", "", ""), ("-", "", ""), ("", "", "")]
    return [{"fn": "h_score:ties", "cfg": {"n": T(tier, 2, 3), "pool": pool}, "hashseeds": True},
            {"fn": "h_score:tie_rules", "cfg": {"n": T(tier, 4, 5)}},
            {"fn": "h_score:tie_three", "cfg": {"n": T(tier, 2, 4)}},
            {"fn": "h_score:tie_three", "cfg": {"template": "\"?\\?\"" + T(tier, "\n'", "?\n'?")}},
            {"fn": "h_score:tie_three", "cfg": {"template": "a\\\"?b\\\"?,'?"}},
            # an effect far into the text
            {"fn": "h_score:tie_rules", "cfg": {"n": T(tier, 2, 4), "prefix": "a,b c\n" * 130, "only": T(tier, "\"'\\,;/x\n", None)}, "max_steps": 30_000_000},
            {"fn": "h_score:tie_rules", "cfg": {"template": "?\\?,x?", "prefix": "a,b c\n" * T(tier, 500, 1100), "only": "\"',"}, "max_steps": 60_000_000},
            {"fn": "h_score:tie_rules", "cfg": {"n": 2, "prefix": "a," * 300, "suffix": ',"b"', "only": "\"',;\\"}, "max_steps": 30_000_000},
            {"fn": "h_score:tie_three", "cfg": {"n": 2, "prefix": "a,b c\n" * 130, "only": "\"'\\,"}, "max_steps": 30_000_000},
            {"fn": "h_score:tie_four", "cfg": {"quotes": ("", '"', "'"), "template": "?\\?,?\n", "only": T(tier, "\"'x", "\"'\\,x")}},
            {"fn": "h_score:tie_four", "cfg": {"quotes": ("", '"', "'"), "template": "'?\\?',\"?\"\n", "only": T(tier, "\"'", "\"'\\,x")}},
            # rows of other lengths that have as many cells together
            {"fn": "h_score:tie_rules", "cfg": {"rules": ("escape", "quote"), "template": "\\?\n\\?,?", "only": "\\\",'\n"}},
            {"fn": "h_score:tie_rules", "cfg": {"rules": ("both",), "template": "a?\\\"?,\\?"}}]


NORMAL = ('"a?b","c"\r\n"d","e"\r\n', '"a","b"?\n"c","d"\r\n', "a\r?b\r\nc", "'a?','b'\n'c','d'\r\n'e','f'", "?,b?c,?", "?a??b?\n", "'a?'b'\n?c','d?", '"a?b"?"c,d?', '"a",?\n?c,d', "'?'\n'b?\n", "a;?;b\r\n?;?;", "?b\n?d\r?",
          "a|b\n\"?|d?", '?a?,"b"\n"c",?', '""?""?\n', "a,'b'?c\n?,d,e", "a,b?\r\nc,d?\r\n", "a?\r\nb?\r\nc")
NORMAL3 = ("???b\n??c", "'?''?,b'\n'c','?", '"?,b"?"c?d"\n', "a?b,c??,e\n", "?a,b\n?,d??", '"a"?"b"\n"?"?"d"?')


def c15(tier):
    out = [{"fn": "h_score:normal", "cfg": {"n": T(tier, 3, 4)}}]
    for t in NORMAL + T(tier, (), NORMAL3):
        out.append({"fn": "h_score:normal", "cfg": {"template": t}})
    out.append({"fn": "h_score:normal", "cfg": {"template": "a?b?", "delimiters": "xb-"}})
    out.append({"fn": "h_score:normal", "cfg": {"n": T(tier, 3, 4), "delimiters": " "}})
    out.append({"fn": "h_score:normal", "cfg": {"n": T(tier, 2, 4), "delimiters": ""}})
    # long texts
    for row in ("a,b\n", '"a","b"\n', 'a,"b;"\n', "'a'\r\n", "a\r", ",,,\n"):
        for k in T(tier, (130,), (130, 1100)):
            out.append({"fn": "h_score:normal", "cfg": {"n": 2, "prefix": row * k, "suffix": row * (k % 2), "only": ",;\"'a\n"}, "max_steps": 60_000_000})
    # in the middle of a late row
    for row, left, right in (('"ab","cd"\n', '"a', '","b"\n'), ("'ab','cd'\n", "'a", "','b'\n"), ("ab,cd\n", "a,", "\n")):
        out.append({"fn": "h_score:normal", "cfg": {"n": 2, "prefix": row * 150 + left, "suffix": right, "only": "\\'\"x/"}, "max_steps": 60_000_000})
    for row, left, right in (('"a,b"\n', '"a,', '"\n'), ('"a","b"\n', '"a","', '"\n'), ("a\r", "a", "\r"), ('"a"\n', '"a', '"\n')):
        out.append({"fn": "h_score:normal", "cfg": {"n": 2, "prefix": row * T(tier, 130, 1100) + left, "suffix": right, "only": ",;\"a "}, "max_steps": 60_000_000})
    out.append({"fn": "h_score:normal", "cfg": {"n": 2, "prefix": "a,b\n" * 1100, "suffix": ",b\n" + "a,b\n" * 1100, "only": ",\"\n"}, "max_steps": 60_000_000})
    for row, left, right in (('"a","b"\n', '"a', '","b"\n'), ("a,b\r\n", "a,b", "\r\n"), ("ab\n", "a", "b\n")):
        out.append({"fn": "h_score:normal", "cfg": {"n": 1, "least": 1, "prefix": row * (66000 // len(row)) + left, "suffix": right + row, "only": T(tier, ",x", ",\"x\\;'\n")}, "max_steps": 200_000_000})
    return out


CHECKS.update({"C13": {"instances": c13}, "C14": {"instances": c14}, "C15": {"instances": c15}})
CHECKS.update({"C11": {"instances": c11}, "C12": {"instances": c12}})


WS = " \t\n\r\x0b\x0c\x1c\x85\xa0\u2003\u3000"
TYPES = ("number", "ipv4", "url", "email", "unicode_alphanum", "date", "time", "percentage", "currency", "datetime", "nan",
         "unix_path", "bytearray", "json", "empty")
CELLS = {
    "number": ("?12?5", "-?3?e?", "1?234?56", "1,23?.?", "0?5?", "+?.?5", "?00?00,?", "12?,45?.", "1?E-??"),
    "ipv4": ("1?1.12?.1", "12.?.?.255", "1.2.3?4?", "1234?1.1.?"),
    "url": ("http?//a.b?", "?a.b?c", "ftp://?b.de/?", "a.co.?k?", "https://localhost?8?", "1.1.1.1:?/?", "a?bc.de?", "www.x.y?/?", "http://?-a.bc",
            "localhost?a?", "a.bc.de.?", "?.local?", "http:/?b.cd"),
    "email": ("a?b.?", "?@b?c", "a@b-?.c?", "a.b+?@?.d", "a@b.c@?"),
    "unicode_alphanum": ("a??", "?1 ?", "é?,"),
    "date": ("?1-1?-19", "2019?1?21", "0?1?19", "3?1220?9", "19?3?1?", "2019年?月1?日", "201?년1월?1일", "1/?/201?", "?9.12?31", "20??1231", "??-1-1",
             "1 2 ?9?", "1-?3-20?", "12-31?2?"),
    "time": ("?:3?", "1?:5?", "2?:0?:5?", "10:00:?0?01:00", "10:00:00+1?:5?", "1:2?:?", "10:00:00-?2:0?", "?4:59:5?"),
    "percentage": ("?5?", "1?5%?", "1.?%"),
    "currency": ("?5?", "$?1?", "\u20ac?,5?"),
    "datetime": ("2019-01-1??1:00", "2019-01-01T10:0??", "19/1/1 ?:0?", "2019-01-01T10:00?01?", "2019-01-01T10:00:00?0?00",
                 "2019-01-01T10:00-1?:?0", "2019-01-01?", "2019-01-01T?", "2019-01-01 ?", "2019-01-01T10:00?", "2019-01-01T10:00Z?", "2019-01-01T??", "20190101T1?:00?2?", "2019-1-1 10:00 ?", "?-1-1T1:00"),
    "nan": ("??", "n??", "N?A?"),
    "unix_path": ("?/a?", "/a?b?", "~?b/", "./?/?", "/?-_?"),
    "bytearray": ("bytearray?b?", "bytearray(b?", "?ytearray(b)", "bytearray(?)"),
    "json": ("{?}", "{\"a\":?}", "{\"a\"?1}", "{\"\":[?]}", "{??}", "?\"a\":1}"),
    "empty": ("?",),
}
CELLS3 = {
    "number": ("???5", "1?3?5?", "?0?0?0", "1?e??", "1,???.?"),
    "ipv4": ("?.?.?.?", "???.1.1.1"),
    "url": ("?ttp?//?.ab", "a?b?c?d", "1?1?1?1", "?.?c/?", "ab.cd?ef?g?"),
    "email": ("?@?.?", "??@b.c?"),
    "date": ("?-?-?9", "???219", "2019???1", "20?9?1?2", "1??1?19"),
    "time": ("??:??", "1?:?0:?0", "10:00:?0?0?:00"),
    "datetime": ("2019-01-01T?0:?0?", "2019-01-01T10:00?0?:?0", "1-1-19?1:0?"),
    "unix_path": ("???", "?/?/?"),
    "currency": ("???", "?1?5?"),
}


# one of each shape the grammars allow
EXAMPLES = {
    "number": ("0", "-12", "+1.5", ".5", "7.", "1e5", "12E-03", "1.5e+7", "1,234.5", "1,234.", "12.345,6", "1.234.567,", "1,5", ",25e3", "-"),
    "ipv4": ("1.2.3.4", "255.249.199.10", "0.00.001.100"),
    "url": ("http://a.bc", "https://a-b.cd/e?f=1#g", "www.ab.co.uk", "ab.com/d", "ftp://1.2.3.4:8080/", "localhost:80/x"),
    "email": ("a@b.cd", "a.b+c-d@e-f.gh.ij"),
    "unicode_alphanum": ("ab 1", "a.b (c)!", "\u00e9t\u00e9?"),
    "date": ("2019-01-31", "2019/1/3", "19.01.02", "31-12-2019", "1/2/19", "20190131", "2019\u5e741\u67083\u65e5"),
    "time": ("10:30", "1:05", "23:59:59", "10:00:00+01:00"),
    "percentage": ("5%", "12.5 %", "-1,234.5%"),
    "currency": ("$5", "\u20ac 1.50", "$1,234.50"),
    "datetime": ("2019-01-31 10:30", "2019-01-31T10:30:00", "2019/1/3 1:05", "2019-01-31T10:30:00Z", "2019-01-31T10:30+01:00",
                 "2019-01-31T10:30-0100", "2019-01-31T10:30+01"),
    "nan": ("n/a", "NaN", "NA"),
    "unix_path": ("/a/b.c", "~/x_1", "./a-b/"),
    "bytearray": ("bytearray(b'a')", "bytearray(b'')", "bytearray(b\"x\")"),
    "json": ('{"a":[1,null]}', '{"b": {"c": "\\u00e9"}}', '{"d":-1.5e3, "e":true}'),
    "empty": (),
}


LONGCELLS = (("number", "1" * 299 + "?"), ("number", "1" + ",234" * 80 + "?5"), ("number", "1" + ",234" * 80 + ".?" + "5" * 80), ("number", "12" + ".345" * 80 + "?"),
             ("url", "a." * 80 + "b?"), ("url", "ab." + "c" * 80 + "?"), ("url", "a.bc/" + "d/" * 80 + "?"), ("url", "a.bc/d." + "e" * 80 + "?"),
             ("email", "a@b." + "c." * 80 + "?"), ("email", "a@b-" + "c-" * 80 + "?.d"), ("unicode_alphanum", "a" * 300 + "?b"), ("unicode_alphanum", "1" * 300 + "?b"),
             ("unix_path", "/" + "a" * 300 + "?"), ("percentage", "1" + ",234" * 80 + ".?%"), ("currency", "$ 1" + ",234" * 80 + ".?"), ("json", '{"a":' + "[" * 40 + "?" + "]" * 40 + "}"),
             ("number", "1,?" + "234," * 80 + "567"), ("number", "0." + "?" + "7" * 300), ("number", "1e" + "5" * 300 + "?"),
             ("url", "http://ab.de/?" + "x" * 300), ("url", "www." + "a.b-c" * 60 + "?de"), ("email", "a?" + "b" * 300 + "@cd.ef"),
             ("email", "a@" + "b" * 300 + ".c?"), ("unicode_alphanum", "ab " * 100 + "?"), ("unicode_alphanum", "\u00e9" * 300 + "?x"),
             ("percentage", "9" * 300 + "?"), ("currency", "$" + "9" * 300 + "?"), ("unix_path", "/a" * 150 + "?b"), ("bytearray", "bytearray(b'" + "x?" * 1 + "y" * 300 + "')"),
             ("json", '{"a":"' + "x" * 300 + '"?'), ("json", "{" + ",".join('"k%d":%d' % (i, i) for i in range(60)) + "?"), ("nan", "n/a" + "?" * 1), ("ipv4", "1.2.3." + "0" * 60 + "?"))


def c16(tier):
    out = []
    for t in TYPES:
        if t != "json":
            out.append({"fn": "h_types:grammar", "cfg": {"type": t, "n": T(tier, 3, 4) if t not in ("currency",) else 3, "without": ""}})
        for c in CELLS[t] + T(tier, (), CELLS3.get(t, ())):
            out.append({"fn": "h_types:grammar", "cfg": {"type": t, "template": c, "without": ""}})
    out.append({"fn": "h_types:detect", "cfg": {"n": T(tier, 2, 3), "without": ""}})
    for t in TYPES:
        for x in EXAMPLES[t]:
            out.append({"fn": "h_types:near", "cfg": {"type": t, "example": x, "changes": 1, "whole": True}})
            if tier != "quick":
                out.append({"fn": "h_types:near", "cfg": {"type": t, "example": x, "changes": 2, "whole": False}, "weight": len(x)})
    for t in TYPES:
        for c in CELLS[t][:T(tier, 2, None)] + T(tier, (), CELLS3.get(t, ())):
            out.append({"fn": "h_types:detect", "cfg": {"template": c, "without": ""}})
    for t, c in LONGCELLS:
        out.append({"fn": "h_types:grammar", "cfg": {"type": t, "template": c, "without": ""}, "max_steps": 30_000_000})
        if tier != "quick":
            out.append({"fn": "h_types:detect", "cfg": {"template": c, "without": ""}, "max_steps": 30_000_000})
    for c in ("2019-01-01T?", "10:00?", "2019-01-01 ?"):
        out.append({"fn": "h_types:detect", "cfg": {"template": c, "without": ""}})
    out.append({"fn": "h_types:spaces", "cfg": {"n": T(tier, 1, 2), "without": "", "space": WS}})
    out.append({"fn": "h_types:names", "cfg": {"n": T(tier, 1, 2), "without": ""}})
    return out


CHECKS.update({"C16": {"instances": c16}})


MEM = {"memory": True, "finish": True}
FAIL = {"memory": True, "finish": True, "opts": {"alloc_fail": True}}


def c07(tier):
    out = []
    for dia in (DIA[1], ("?", '"', "?"), ("", "", "")):
        out.append(dict(MEM, fn="h_memory:parser", cfg={"dialect": dia, "sizes": T(tier, (2, 1), (2, 2)), "limit": (131072, 1)}))
    out.append(dict(MEM, fn="h_memory:parser", cfg={"dialect": DIA[0], "sizes": (2,), "limit": (131072, 0)}, opts={"uni_mode": "fork"}))
    out.append(dict(FAIL, fn="h_memory:parser", cfg={"dialect": DIA[1], "sizes": T(tier, (2, 1), (3, 1)), "only": 'x,"\n'}))
    for q in ('"', ""):
        for k in (4094, 8191):
            out.append(dict(MEM, fn="h_memory:parser", cfg={"dialect": (",", q, ""), "sizes": (3,), "prefix": q + "x" * k, "steps": (2,)},
                            max_steps=30_000_000))
    out.append(dict(FAIL, fn="h_memory:parser", cfg={"dialect": (",", '"', ""), "sizes": (2,), "prefix": "x" * 4095, "steps": (2,),
                                                     "only": 'x,"'}, max_steps=30_000_000))
    out.append(dict(MEM, fn="h_memory:sources", cfg={"n": T(tier, 1, 2)}))
    out.append(dict(FAIL, fn="h_memory:sources", cfg={"n": 1}))
    out.append(dict(MEM, fn="h_memory:arguments"))
    out.append(dict(FAIL, fn="h_memory:arguments"))
    for dia in (DIA[1], DIA[2], ("?", "?", "?")):
        out.append(dict(MEM, fn="h_memory:scan", cfg={"dialect": dia, "n": T(tier, 4, 5)}))
    out.append(dict(FAIL, fn="h_memory:scan", cfg={"dialect": DIA[1], "n": 3}))
    out.append(dict(MEM, fn="h_memory:scan", cfg={"dialect": DIA[1], "n": 3}, opts={"uni_mode": "fork"}))
    for s in ("", "\\"):
        out.append(dict(MEM, fn="h_memory:scan", cfg={"dialect": DIA[1], "n": 3, "prefix": "," * 4093, "suffix": s}, max_steps=30_000_000))
    out.append(dict(FAIL, fn="h_memory:scan", cfg={"dialect": DIA[1], "n": 2, "only": ",\\", "prefix": "," * 4094}, max_steps=30_000_000))
    out.append(dict(MEM, fn="h_memory:scan", cfg={"dialect": DIA[1], "n": 3, "prefix": "," * 8190}, max_steps=30_000_000))
    out.append(dict(MEM, fn="h_memory:scan_arguments"))
    out.append(dict(FAIL, fn="h_memory:scan_arguments"))
    out.append(dict(MEM, fn="h_memory:letters", cfg={"n": T(tier, 5, 7)}))
    for k in (3, 7):
        out.append(dict(MEM, fn="h_memory:letters", cfg={"n": T(tier, 4, 5), "prefix": "QCQD" * k}))
        out.append(dict(FAIL, fn="h_memory:letters", cfg={"n": 3, "prefix": "QCQD" * k}))
    return out


def c08(tier):
    out = [{"fn": "h_memory:ordinary", "cfg": {"dialect": dia, "n": T(tier, 3, 4)}, "memory": True} for dia in DIA]
    out.append({"fn": "h_memory:ordinary", "cfg": {"dialect": ("?", "?", ""), "n": T(tier, 3, 4)}, "memory": True})
    out.append({"fn": "h_memory:ordinary", "cfg": {"dialect": (",", "\u201c", "\U0001f600"), "n": T(tier, 4, 5)}, "memory": True})
    for dia in ((",", '"', "\\"), (";", "", "")):
        out.append({"fn": "h_memory:ordinary_from", "cfg": {"dialect": dia, "texts": ("a", "a,b", 'a,"b"', "a;\\;\u20ac", '"a""b', "\n", "\U0001f600", "ab\r\n")}, "memory": True})
    out.append({"fn": "h_memory:ordinary_scan", "cfg": {"dialect": ("?", '"', "\\"), "n": T(tier, 3, 4)}, "memory": True})
    return out


CHECKS.update({"C07": {"instances": c07}, "C08": {"instances": c08}})


# many short rows, long rows
SHORT = ((1100, 1), (3, 600))


def c21(tier):
    D = "clevercsv"
    out = []
    for spec, n in ((("name", "excel"), 3), (("simple", (";", "'", "\\")), 3), (("class", "excel_tab"), 2), (("instance", "excel"), 2)):
        out.append({"fn": "h_wrappers:read_file", "cfg": {"dialect": spec, "n": T(tier, n, n + 1), "encodings": ("utf-8", None)}})
    out.append({"fn": "h_wrappers:read_file", "cfg": {"dialect": ("name", "unix"), "template": 'a,"?\n?",b\r?1'}})
    out.append({"fn": "h_wrappers:read_file", "cfg": {"dialect": ("none",), "n": T(tier, 1, 2), "num_chars": (None, 1, 2, 5)}})
    for t in ("a,b\r\n?,?", "a;b?\n1;2\r3;4", "'a'?'b'\r\n'1'?'2'") + T(tier, (), ("a b?c\n1 2?3", "?|b\n1|?\n")):
        out.append({"fn": "h_wrappers:read_file", "cfg": {"dialect": ("none",), "template": t, "num_chars": (None, 0, 3, 50)}})
    out.append({"fn": "h_wrappers:head"})
    out.append({"fn": "h_wrappers:detect_file", "cfg": {"template": "a,?\n1;?\n", "num_chars": (None, 4)}})
    out.append({"fn": "h_wrappers:detect_file", "cfg": {"template": "a,?\n1;?\n", "num_chars": (None, 0, 4), "encodings": (None, "?utf-16"),
                                                        "only": T(tier, ",;x'\n1", None)}})
    for spec in (("name", "excel"), ("none",)):
        out.append({"fn": "h_wrappers:read_file", "cfg": {"dialect": spec, "template": "a,\u00e9?\n1,2\n", "encodings": ("?utf-16", "?cp1252", "latin-1"),
                                                          "only": ",;x\u00e9\"\n"}})
    out.append({"fn": "h_wrappers:undecodable", "cfg": {"template": "a,?\n1;2\n", "only": ",;x\n"}})
    out.append({"fn": "h_wrappers:places", "cfg": {"template": "a,?\n1;2\n", "only": ",;x\n"}})
    out.append({"fn": "h_wrappers:whole", "cfg": {"rows": 17, "how": ("detect", "table", "stream", "dicts", "stream dicts")}, "max_steps": 30_000_000})
    for rows, columns in SHORT:
        out.append({"fn": "h_wrappers:whole", "cfg": {"rows": rows, "columns": columns, "width": 1, "how": ("detect", "table", "stream", "dicts", "stream dicts")},
                    "max_steps": 60_000_000})
    return out


WD = (("name", "excel"), ("simple", (";", "'", "")), ("class", "excel_tab"), ("instance", "unix_dialect"))


def c22(tier):
    out = [{"fn": "h_wrappers:write_file", "cfg": {"shapes": ((), ((1,),), ((1, 1),), ((1,), (1,)), ((1, 1), (1,)), ((), ()), ((1,), ())), "dialects": WD[:2]}},
           {"fn": "h_wrappers:write_file", "cfg": {"shapes": T(tier, (((1, 1), (0, 1)),), (((1, 1), (1, 1)), ((2, 1),), ((1, 1, 1),))), "dialects": WD}},
           {"fn": "h_wrappers:write_dict_file", "cfg": {"dialects": WD[:T(tier, 2, 4)]}},
           {"fn": "h_wrappers:many", "cfg": {"sizes": ((513, 2), (1025, 1), (2049, 2), (2, 1030), (1, 300)), "only": T(tier, 'x,\n', None)}, "max_steps": 60_000_000},
           {"fn": "h_wrappers:encodings"}]
    return out


def c23(tier):
    F = "h_console:standardize"
    out = []
    for t in ("a;?\n1;2", "a,?\r\n1,2\r\n", "?,1\n", "'a;?';1\n'2?';\n", "?") + T(tier, (), ('"a"\t?\n?\t"1\n', "a|b?c\n?|1|2\n")):
        out.append({"fn": F, "cfg": {"template": t, "transpose": (False, True), "num_chars": (None, 2)}})
    out.append({"fn": F, "cfg": {"template": "a,?\r\nb,1\r\n", "where": ("in-place", "output", "same"), "target": ("latin-1", "ascii", "utf-16"),
                                 "only": 'x,"\r;', "encodings": ("utf-8", None, "utf-16")}})
    out.append({"fn": "h_console:again", "cfg": {"n": T(tier, 2, 3)}})
    out.append({"fn": "h_console:again", "cfg": {"template": 'a?"b?c",1\n'}})
    out.append({"fn": "h_console:many", "cfg": {"only": T(tier, 'x,";\r\n', None)}})
    out.append({"fn": "h_console:several", "cfg": {"only": "x,;\u00e9", "encodings": (("latin-1", "utf-8"), ("utf-8", "latin-1"), ("utf-16", "utf-8"))}})
    out.append({"fn": "h_console:standardize", "cfg": {"template": "a;\u00e9?\n1;2", "where": ("in-place", "output", "stdout"), "encodings": ("?utf-16", "?cp1252"),
                                                       "only": ";x\u00e9\"\n"}})
    out.append({"fn": "h_console:undecodable", "cfg": {"command": "standardize", "options": ([], ["-t"], ["-i"], ["-o", "out.csv"], ["-i", "-E", "latin-1"]), "template": "a,?\n1;2\n", "only": ",;x\n"}})
    out.append({"fn": "h_console:whole", "cfg": {"rows": 17, "what": ("standardize",)}, "max_steps": 30_000_000})
    for rows, columns in SHORT:
        out.append({"fn": "h_console:whole", "cfg": {"rows": rows, "columns": columns, "width": 1, "what": ("standardize",)}, "max_steps": 60_000_000})
    for t in T(tier, ("a;?\n1;2",), ("a;?\n1;2", "a,?\r\n", "?")):
        out.append({"fn": "h_console:hard", "cfg": {"template": t}})
        out.append({"fn": "h_console:linked", "cfg": {"template": t, "where": ("in-place", "same", "to link", "to input", "read", "other")}})
    out.append({"fn": "h_console:digest", "cfg": {"sizes": (0, 65535, 65536) + T(tier, (), (131071, 131072)), "only": "xy", "at": ("end", "start")}, "max_steps": 30_000_000})
    out.append({"fn": "h_console:digest", "cfg": {"sizes": T(tier, ((1 << 20) + 65535,), ((1 << 20) - 1, (1 << 20) + 65535, 1 << 22)), "only": "xy", "at": ("end",)},
                "max_steps": 30_000_000})
    out.append({"fn": "h_console:big", "cfg": {"rows": 9000, "prefix_only": True, "only": 'xy,"\r\n 1'}, "native_timeout": 100, "weight": 50})
    return out


def c24(tier):
    F = "h_console:faults"
    out = []
    for t in ("a;?\n1;2\n", "a,?\r\n") + T(tier, (), ("?;?\n",)):
        for o in ({"io_faults": True}, {"io_crash": True}, {"io_faults": True, "xdev": True}, {"io_crash": True, "xdev": True}):
            out.append({"fn": F, "cfg": {"template": t, "where": ("in-place", "same", "output"), "transpose": (False, True)}, "opts": o})
    out.append({"fn": "h_console:hard", "cfg": {"template": "a;?\n1;2\n"}})
    for o in ({"io_faults": True}, {"io_crash": True}):
        out.append({"fn": F, "cfg": {"template": "a;?\n1;2\n", "where": ("in-place", "same"), "link": (True,)}, "opts": o})
    out.append({"fn": F, "cfg": {"template": "a;b\n?;2\n", "where": ("in-place", "same"), "only": "x,;\"\n", "modes": (0o400, 0o444, 0o755, 0o200, 0o4711)},
                "opts": {"io_faults": True}})
    out.append({"fn": F, "cfg": {"template": "a;b\n1;2\n?;?\n", "where": ("in-place", "same", "output", "stdout"), "target": ("ascii", "latin-1"),
                                 "only": 'x"\xe9\u20ac', "transpose": (False, True)}})
    out.append({"fn": F, "cfg": {"template": "a;b\n1;2\nx?;?\ny;z\n", "where": ("in-place", "same", "output"), "num_chars": 8, "without": "",
                                 "transpose": (False, True)}})
    return out


def c25(tier):
    F = "h_console:code"
    out = [{"fn": F, "cfg": {"template": "a?b\n1?2", "num_chars": (None, 4)}},
           {"fn": F, "cfg": {"template": "?a?,?b?\n", "only": "'\"\\x~|", "pandas": (False, True)}},
           {"fn": F, "cfg": {"template": "a\\;b;?c?\n", "without": "\0", "encodings": ("utf-8",)}},
           {"fn": F, "cfg": {"template": "a;?", "only": "x'\u20ac\xe9", "encodings": ("utf-8", "utf-16", "cp1252")}},
           {"fn": F, "cfg": {"template": "a,?", "only": 'x"', "names": h_names(), "encodings": ("utf-8", None)}},
           {"fn": F, "cfg": {"template": "a;?", "only": 'x"', "names": h_names("PLACES")}}]
    out.append({"fn": F, "cfg": {"template": "a;\u00e9?", "only": "x';", "encodings": ("?utf-16", "?cp1252")}})
    out.append({"fn": "h_console:undecodable", "cfg": {"command": "code", "options": ([], ["-p"]), "template": "a,?\n1;2\n", "only": ",;x\n"}})
    out.append({"fn": "h_console:whole", "cfg": {"rows": 17, "what": ("code",)}, "max_steps": 30_000_000})
    for rows, columns in SHORT[:1]:
        out.append({"fn": "h_console:whole", "cfg": {"rows": rows, "columns": columns, "width": 1, "what": ("code",)}, "max_steps": 60_000_000})
    out.append({"fn": "h_console:generate", "cfg": {"part": "name", "n": T(tier, 2, 3)}})
    for x in "dqe":
        out.append({"fn": "h_console:generate", "cfg": {"part": x, "others": T(tier, '"', '"\\\'')}})
    return out


def h_names(which="NASTY"):
    import importlib

    return list(getattr(importlib.import_module("harness.h_console"), which))


def c28(tier):
    F = "h_console:detect_command"
    out = []
    for t in ("a?b\n1?2", "?", "'a'?'b'\n") + T(tier, (), ("?a?;1\n", "a\\;b;?c\n")):
        out.append({"fn": F, "cfg": {"template": t, "styles": ("plain",), "num_chars": (None, 3)}})
        out.append({"fn": F, "cfg": {"template": t, "styles": ("default", "json"), "num_chars": (None, 3), "only": ASCII}})
    # every set of options where the methods differ
    out.append({"fn": F, "cfg": {"template": "a?b\nc?d\n", "num_chars": (None, 0, 1, 6, 50), "only": T(tier, "-/;&", "-/;&@. ")}})
    out.append({"fn": F, "cfg": {"template": "a?b", "runtime": (True,), "only": ASCII, "skip": (True,)}})
    out.append({"fn": F, "cfg": {"template": "a?b", "encodings": ("utf-8", None), "only": ASCII, "skip": (True,)}})
    out.append({"fn": F, "cfg": {"template": "a?b,c?", "encodings": ("utf-16", "cp1252", "?utf-16", "?latin-1"), "only": 'x;"\xe9', "skip": (True,)}})
    out.append({"fn": "h_console:undecodable", "cfg": {"command": "detect", "template": "a,?\n1;2\n", "only": ",;x\n"}})
    out.append({"fn": "h_console:whole", "cfg": {"rows": 17, "what": ("detect",)}, "max_steps": 30_000_000})
    for rows, columns in SHORT[:1]:
        out.append({"fn": "h_console:whole", "cfg": {"rows": rows, "columns": columns, "width": 1, "what": ("detect",)}, "max_steps": 60_000_000})
    return out


def c29(tier):
    F = "h_header:header"
    out = [{"fn": F, "cfg": {"n": T(tier, 2, 3)}}]
    for t in ("?b,c\n1,2?\n3,4\n", "a,?\n1?,x\n25,yy\n", "a,b\n?,1?\n2,3\n", "??,x\n(1j),y\n3,z\n", "1e?,a\n.5,b\n?.,c\n", "ab,1\ncd,?\n?e,3\n1",
              "a;b\nxx;?y\nz?;zz\n", "a,b\n?\n1,2", "a?,xx\n?j,y\n2j,1\n") + T(tier, (), ("a,?\n?,x\n2,?\n", "?,?\n1,2\n?,3\n", "inf?,a\n?nan,b\n1,c\n")):
        out.append({"fn": F, "cfg": {"template": t}})
    out.append({"fn": F, "cfg": {"template": "?,b\n" + "1,x\n" * 150 + "?,y\n3,?\n", "most": T(tier, (200,), (None, 149, 150, 151, 10 ** 9)), "only": "1a."}})
    # rows beyond the number to check
    out.append({"fn": F, "cfg": {"template": "a,b\n1\n?,2\n3,x\n?,yy\n", "most": (0, 1, 2, 3)}})
    out.append({"fn": F, "cfg": {"template": "ab,cd\n" + "1,2\n" * 18 + "3\n?,4\n?,?\n5,6\n", "most": T(tier, (None,), (None, 19, 20, 21)),
                                 "only": "1a."}})
    return out


def c30(tier):
    F = "h_wrappers:dataframe"
    out = [{"fn": F, "cfg": {"n": T(tier, 1, 2), "num_chars": (None, 0, 1)}}]
    for t in ("a?b\n1?2", "'a?'\n'1'\n", "a\\;b;?\n1;2\n") + T(tier, (), ('"a",?\n?,"b"\n', "a?\n1\n?\n")):
        out.append({"fn": F, "cfg": {"template": t, "num_chars": (None, 3)}})
    out.append({"fn": F, "cfg": {"template": "a?\n1", "encodings": ("utf-8", None)}})
    out.append({"fn": F, "cfg": {"template": "a?\n\u00e9;", "encodings": ("?utf-16", "?cp1252", "latin-1"), "only": ";x\"\n"}})
    out.append({"fn": "h_wrappers:whole", "cfg": {"rows": 17, "how": ("frame",)}, "max_steps": 30_000_000})
    for rows, columns in SHORT[:1]:
        out.append({"fn": "h_wrappers:whole", "cfg": {"rows": rows, "columns": columns, "width": 1, "how": ("frame",)}, "max_steps": 60_000_000})
    return out


def c31(tier):
    return [{"fn": "h_encoding:encoding", "cfg": {"sizes": (0,), "n": T(tier, 2, 3)}},
            {"fn": "h_encoding:again", "cfg": {"n": T(tier, 2, 4)}},
            {"fn": "h_encoding:encoding", "cfg": {"sizes": (65535, 65536), "n": 2, "only": "a\n\x00"}, "max_steps": 30_000_000},
            {"fn": "h_encoding:encoding", "cfg": {"sizes": T(tier, (131071,), (131071, 196607)), "n": 2, "only": "a\n"}, "max_steps": 30_000_000},
            {"fn": "h_encoding:encoding", "cfg": {"sizes": T(tier, (262144,), (262144, 1048577)), "n": 1, "only": "a\n"}, "max_steps": 30_000_000}]


def c32(tier):
    out = []
    for t in ("a?b\n1?2", "?", "a,?\n1\n?,2,3\n") + T(tier, (), ("'a'?'b'\n", "?a?;1\n")):
        out.append({"fn": "h_console:view", "cfg": {"template": t, "num_chars": (None, 3)}})
        out.append({"fn": "h_console:explore", "cfg": {"template": t, "num_chars": (None, 3), "without": "\0"}})
    out.append({"fn": "h_console:view", "cfg": {"n": T(tier, 1, 2)}})
    out.append({"fn": "h_console:explore", "cfg": {"n": T(tier, 1, 2)}})
    out.append({"fn": "h_console:view", "cfg": {"template": "a;?", "only": "x'\u20ac\xe9", "encodings": ("utf-8", "utf-16", "cp1252")}})
    out.append({"fn": "h_console:explore", "cfg": {"template": "a;?", "only": "x'\u20ac\xe9", "encodings": ("utf-8", "utf-16", "cp1252")}})
    out.append({"fn": "h_console:explore", "cfg": {"template": "a,?", "only": 'x"', "names": h_names(), "encodings": ("utf-8", None)}})
    out.append({"fn": "h_console:explore", "cfg": {"template": "a;?", "only": 'x"', "names": h_names("PLACES")}})
    out.append({"fn": "h_console:no_tabview"})
    out.append({"fn": "h_console:whole", "cfg": {"rows": 17, "what": ("view", "explore")}, "max_steps": 30_000_000})
    for rows, columns in SHORT:
        out.append({"fn": "h_console:whole", "cfg": {"rows": rows, "columns": columns, "width": 1, "what": ("view", "explore")}, "max_steps": 60_000_000})
    for f in ("view", "explore"):
        out.append({"fn": "h_console:" + f, "cfg": {"template": "a;\u00e9?\n", "only": "x';", "encodings": ("?utf-16", "?cp1252")}})
    return out


def c33(tier):
    out = [{"fn": "h_verbose:api", "cfg": {"n": T(tier, 1, 2)}}]
    for t in ("a,b\n?,1", "'a'?b\n?", "x\\,?\ny,y") + T(tier, (), TEXTS[:8]):
        out.append({"fn": "h_verbose:api", "cfg": {"template": t, "delimiters": (None, ",;x")}})
    for t in ("a?b\n1?2", "a\\;b;?\n") + T(tier, (), ("'a'?'b'\n", "?a?;1\n")):
        out.append({"fn": "h_verbose:files", "cfg": {"template": t, "num_chars": (None, 3)}})
    for w in ("detect", "code", "view", "in place", "standardize"):
        for t in ("a?\n1;2", "?") + T(tier, (), ("'a?b'\n", "a?b\n1?2")):
            out.append({"fn": "h_verbose:commands", "cfg": {"template": t, "what": (w,), "num_chars": (None, 3), "only": ASCII if w == "detect" else None}})
    out.append({"fn": "h_verbose:program", "cfg": {"template": "a?b\n1,2", "only": ASCII}})
    return out


ASCII = "".join(map(chr, range(32, 127))) + "\t\r\n"

CHECKS.update({"C21": {"instances": c21}, "C22": {"instances": c22}, "C23": {"instances": c23}, "C24": {"instances": c24},
               "C25": {"instances": c25}, "C28": {"instances": c28}, "C29": {"instances": c29}, "C30": {"instances": c30},
               "C31": {"instances": c31}, "C32": {"instances": c32}, "C33": {"instances": c33}})
