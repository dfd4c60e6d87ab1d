"""C++ texts whose include directives and tags are known by construction."""

from hypothesis import strategies as st

WS = ["", "", " ", "\t", "  ", " \t "]
OPERANDS = ["a.hpp", "./b.hpp", "../c/d.hpp", "dir/e f.hpp", "ü.hpp", "x.gen.hpp", "./gen/y.hpp", "sub/z.gen.hpp", "z.gen.hppx", "w-gen_hpp", "vector",
            "sys/types.h", "include", "#include", "a'b.h", "no_ext", "a++b.h", "it;s.h", "a\\b.h", "x@y.h", "a//b.h", "a/*b.h", "(p).h"]
DECOYS = ["#include <no>", '#include "no"', "//@ {\"no\":1}", "//", "/*", "x", " ", "@", "ü", "\udcff", "\udce4", "no.hpp", "'", "(", "<", "\t", "R", "0"]

text_pieces = st.sampled_from([
    "int x;", "x", "y_1", "foo(", ")", "{", "}", ";", "=", "+", "/", "*", "a / b", "<", ">", "a<b>c", "1'000'000", "0xFF'FFu", "1.5e3", "0b1'0",
    "x # y", "x #include <no>", 'x #include "no"', "ident_include", "std::vector<int>", "a ? b : c", "[", "]", "->", "&&", "ü", "y\\", "@", "R", "u8", "...", "::", "%:x",
    "/", "/", "9'9'0", "0xaf'FA'z9", "1'2'3'4'5'6'7'8'9'0'1", "0x1'g_'Z'a", "x/ /y"])
str_tok = st.sampled_from(DECOYS + ['\\"', "\\\\", "\\n", "*/", "\\'", "%s", "\\\n", "\\\n#include <no>", "\\\n//@ no"])
chars = st.sampled_from(["'a'", "'\"'", "'\\''", "'\\\\'", "'/'", "'#'", "'\\0'", "'\\x41'", "'ab'", "L'x'", "u8'y'", "'@'", "' '", "'('"])
raw_tok = st.sampled_from(DECOYS + ["\n", "\n", "\n#include <no>\n", "\n#include \"no\"\n", "\n//@ {\"no\":1}\n", ")", ')"', ')x"', ")x", '"', "\\", "*/", "))", ')x', 'x"', ")y\"", "\n)\"\n"])
blk_tok = st.sampled_from(DECOYS + ["\n", "\n", "\n#include <no>\n", "\n#include \"no\"\n", "\n//@ {\"no\":1}\n", '"', "*", "**", "/", "\\", "R\"(", "\n *"])
line_tok = st.sampled_from(DECOYS + ['"', "*/", "R\"(", "\\x", "**", "'\"'"])
string = st.tuples(st.just("str"), st.sampled_from(["", "", "", "L", "u8", "U"]), st.lists(str_tok, max_size=5))
raw = st.tuples(st.just("raw"), st.sampled_from(["R", "R", "u8R", "LR", "UR", "uR"]), st.sampled_from(["", "", "x", "xy", "raw_string", "-+*", "'", "#include", "R"]),
                st.lists(raw_tok, max_size=6))
block = st.tuples(st.just("blk"), st.lists(blk_tok, max_size=6))
piece = st.one_of(st.tuples(st.just("txt"), text_pieces), st.tuples(st.just("txt"), text_pieces), string, raw, block, st.tuples(st.just("chr"), chars))
code = st.tuples(st.just("code"), st.sampled_from(WS), st.lists(piece, min_size=1, max_size=6), st.booleans(),
                 st.one_of(st.none(), st.none(), st.lists(line_tok, max_size=4)))
line_comment = st.tuples(st.just("lc"), st.sampled_from(WS), st.lists(line_tok, max_size=4))
directive = st.tuples(st.just("dir"), st.sampled_from(WS), st.sampled_from([
    "#define X 1", '#define S "#include <no>"', "#define C '\"'", "#pragma once", "#if 1", "#endif // #include <no>", "#define A /* x\n#include <no>\n*/ 1",
    "#include_next <no>", "#includes <no>", "#ifdef include", "#define include <no>", "#", "# ", '#error "x"', '#define Q R"(\n#include <no>\n)"', "#define STR(x) #x",
    '#import "no"', "#include MACRO", "#include", "#if '\"' == 34", "#elif 1'000 > 3", '#line 3 "no.hpp"', "#warning don't", "#define D '\\''", "#define E \"\\\"\"",
    "#define F(x) x/*\n//@ no\n#include <no>*/", "#else//x", "#endif/*\n#include <no>\n*/", "#pragma \"x\"", "#undef R", "#define G(a) a ## \"b\"", "#if 0", "#define LT <no>"]))
inc = st.tuples(st.just("inc"), st.sampled_from(WS), st.sampled_from(WS), st.sampled_from(WS), st.booleans(), st.sampled_from(OPERANDS),
                st.sampled_from(["", "", "", " ", " // \"x\"", "// <no>", " /* a */", "/*\n#include <no>\n*/", "\t"]))
tag = st.tuples(st.just("tag"), st.sampled_from(WS), st.sampled_from([
    "", " ", ' {"target": {"name": "a.o"}}', "\t{", '"x": 1', "}", " // no comment", ' "un', "@", " /* x", " R\"(", "#include <no>", " 'x", " ü \\ y", " caf\udce9 \udcff", "\ttab\t", '{"a":"b"}  ']))
pad = st.tuples(st.just("pad"), st.sampled_from([10, 500, 4000, 4080, 4090, 4094, 4095, 4096, 4097, 8190, 1000]), st.integers(0, 6))
element = st.one_of(inc, inc, inc, tag, tag, code, code, code, code, line_comment, directive, directive, st.just(("blank",)))
cuts = st.one_of(st.just([]), st.lists(st.sampled_from([1, 2, 3, 5, 7, 16, 64, 1000, 4095, 4096]), min_size=1, max_size=4))


@st.composite
def text(draw, max_size=14):
    els = draw(st.lists(element, min_size=draw(st.sampled_from([1, 3, 6])), max_size=max_size))
    if draw(st.integers(0, 4)) == 4:
        els.insert(draw(st.integers(0, len(els))), draw(pad))
    return {"els": els, "crlf": draw(st.integers(0, 3)) == 3, "final": draw(st.integers(0, 3)) != 3}


def render(case):
    """(bytes, [(operand, quoted)], {line number: (column, tag text)})"""
    out = []
    incs = []
    tags = {}
    crlf = case["crlf"]

    def line():
        return "".join(out).count("\n")

    def clean(toks):
        return [t for t in toks if not (crlf and "\\\n" in t)]

    def one(p):
        if p[0] == "txt" or p[0] == "chr":
            return p[1]
        if p[0] == "str":
            return p[1] + '"' + "".join(clean(p[2])) + '"'
        if p[0] == "raw":
            c = "".join(p[3])
            end = ")" + p[2] + '"'
            if (c + end).find(end) != len(c):
                c = "x"
            return p[1] + '"' + p[2] + "(" + c + end
        c = "".join(p[1])
        if ("/*" + c + "*/").find("*/", 2) != 2 + len(c):
            c = "x"
        return "/*" + c + "*/"

    for e in case["els"]:
        if e[0] == "inc":
            _, lead, mid, gap, quoted, op, trail = e
            if not quoted and any(x in op for x in ("'", "//", "/*", "\\")):
                op = "plain.h"      # what these mean in <> is up to the compiler
            incs.append((op, quoted))
            out.append(lead + "#" + mid + "include" + gap + ('"%s"' if quoted else "<%s>") % op + trail + "\n")
        elif e[0] == "tag":
            tags[line()] = (len(e[1]) + 3, e[2] + ("\r" if crlf else ""))
            out.append(e[1] + "//@" + e[2] + "\n")
        elif e[0] == "code":
            s = e[1]
            for i, p in enumerate(e[2]):
                x = one(p)
                if i and not (e[3] and s[-1] in ';,({="' and x[0] not in "/"):
                    s += " "
                s += x
            if s.lstrip(" \t").startswith("#") or s.lstrip(" \t").startswith("//@"):
                s = "z " + s
            if e[4] is not None:
                s += " //" + "".join(e[4])
            out.append(s + "\n")
        elif e[0] == "lc":
            t = "".join(e[2])
            if t.startswith("@"):
                t = " " + t
            out.append(e[1] + "//" + t + "\n")
        elif e[0] == "dir":
            out.append(e[1] + e[2] + "\n")
        elif e[0] == "pad":
            out.append("/" * 2 + "p" * e[1] + "\n" + " " * e[2] + "\n")
        else:
            out.append("\n")
    t = "".join(out)
    n_lines = t.count("\n")
    if not case["final"]:
        t = t[:-1]
        last = n_lines - 1
        if crlf and last in tags:
            tags[last] = (tags[last][0], tags[last][1][:-1])
    if crlf:
        t = t.replace("\n", "\r\n")
    return t.encode(errors="surrogateescape"), incs, tags


def check_tag_stream(src, got, tags):
    """None or what is wrong with the tag text got from src"""
    if got.count(b"\n") != src.count(b"\n"):
        return f"the tag text has {got.count(10)} line ends, the file has {src.count(10)}"
    for i, l in enumerate(got.split(b"\n")):
        if i in tags:
            col, text = tags[i]
            col = len(l[:0]) + col
            if l[col:] != text.encode(errors="surrogateescape"):
                return f"line {i + 1}: expected {text.encode(errors="surrogateescape")!r} from column {col} on, got {l!r}"
            l = l[:col]
        if any(c > 32 for c in l):
            return f"line {i + 1}: {l!r} is no tag text"
    return None
