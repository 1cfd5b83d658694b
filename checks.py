"""What is executed symbolically for each property: harness, real sources, bounds."""
COMMON_ASSUMPTIONS = [
    "Bounds are those listed per job in coverage.jobs; inputs longer than the symbolic part, more operations or more threads than stated are outside the claim.",
    "The C library, the kernel and external libraries are models (engine/libc.c and the vf_* stand-ins of each harness); malloc succeeds for up to 64 MiB.",
    "The code is compiled by clang 18 at -O0 with NDEBUG (as the release build); logging output is discarded unless the property is about logging.",
    "A solver counterexample is reported as a violation only when the same input fails in a native, sanitizer-instrumented build of the same sources.",
]
PROPS = {}
NA = {}
JOBS = []
B = "src/onion/"


def src(*names):
    return [n if "/" in n and n.startswith(("src", "tools")) else B + n for n in names]


RQ = src("request.c", "request_parser.c", "dict.c", "block.c", "codecs.c", "low.c", "ptr_list.c")
RS = RQ + src("response.c")


def prop(pid, note, assume=()):
    PROPS[pid] = dict(note=note, assume=list(assume))


def job(p, name, h, srcs, q, t=None, bounds="", reach=(), **kw):
    JOBS.append(dict(p=p, name=name, h=h, src=srcs, quick=q, thorough=t or q, bounds=bounds, reach=list(reach), **kw))


CODEC = src("codecs.c", "low.c", "block.c")
# ------------------------------------------------------------------ P08-P12 codecs
prop("P08", "every string up to the bound and every output size, by symbolic execution of the escaper and unescaper against a reference decoder")
job("P08", "unquote", "c_unquote.c", CODEC, dict(N=5), dict(N=7), "any text of 0..N bytes", ["wellformed", "malformed"])
job("P08", "quote", "c_quote.c", CODEC, dict(N=3), dict(N=4), "any text of 0..N bytes, any buffer size 1..3N+2", ["fits", "cut"])
LN = "63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025"
job("P08", "unquote-long", "c_unquote.c", CODEC, dict(LONGMAX=4100), None, "texts of 63..65, 127..129, 255..257, 511..513, 1023..1025 and 4095..4097 bytes, plain or full of escapes, the first and last byte arbitrary", ["wellformed", "malformed"], defs=["LONG=" + LN + ",4095,4096,4097", 'FILL="a+%41%2f"'])
job("P08", "quote-long", "c_quote.c", CODEC, dict(LONGMAX=4100), None, "texts of lengths from 64 to 4097, the last byte arbitrary, buffers of 1, exactly the size and one more", ["fits", "cut"], defs=["LONG=64,65,128,129,256,257,512,513,1024,1025,4096,4097", "NOHEAD", 'FILL="a b/"'])
prop("P09", "every text up to the bound decoded, every byte string encoded (last bytes arbitrary, lengths across the line break), against RFC 4648")
job("P09", "roundtrip", "c_b64.c", CODEC, dict(LO=0, HI=7, N=7), dict(LO=0, HI=10, N=10), "any 0..HI bytes", ["done"])
job("P09", "roundtrip-lines", "c_b64.c", CODEC, dict(LO=54, HI=62, N=4), dict(LO=110, HI=120, N=8), "LO..HI bytes, the last N arbitrary", ["done"])
job("P09", "roundtrip-lines2", "c_b64.c", CODEC, dict(LO=112, HI=117, N=3), dict(LO=54, HI=64, N=10), "LO..HI bytes, the last N arbitrary", ["done"])
job("P09", "roundtrip-long", "c_b64.c", CODEC, dict(LO=1022, HI=1027, N=3), dict(LO=4093, HI=4098, N=3), "LO..HI bytes, the last N arbitrary", ["done"])
job("P09", "roundtrip-long2", "c_b64.c", CODEC, dict(LO=253, HI=258, N=3), dict(LO=509, HI=514, N=3), "LO..HI bytes, the last N arbitrary", ["done"])
job("P09", "text", "c_b64text.c", CODEC, dict(N=5), dict(N=6), "any text of 0..N bytes", ["valid", "invalid"])
job("P09", "layout", "c_b64text.c", CODEC, dict(N=7), dict(N=9), "texts of 0..N characters over a letter, padding, a blank, a line break and a byte above 127", ["valid", "invalid"], defs=['ALPHA="Q=\\n\\xff"'])
prop("P10", "every string up to the bound through all HTML quoting entry points, decoded by a reference entity decoder")
job("P10", "html", "c_html.c", RS, dict(N=3), dict(N=5), "any text of 0..N bytes", ["plain", "special"])
job("P10", "html-response", "c_htmlresp.c", RS, dict(N=3), dict(N=4), "any text of 0..N bytes written to a response", ["done"])
job("P10", "html-long", "c_html.c", RS, dict(LONGMAX=4100), None, "texts of 63..65, 127..129, 255..257, 511..513, 1023..1025 and 4097 bytes, plain or full of special characters, the first and last byte arbitrary", ["plain", "special"], max_instr=20000000, defs=["LONG=" + LN + ",4097", 'FILL="a<&\\""'])
job("P10", "html-response-long", "c_htmlresp.c", RS, dict(LONGMAX=4100), None, "the same written to a response", ["done"], defs=["LONG=" + LN + ",4097", 'FILL="a<&\\""'])
prop("P11", "every string and buffer size up to the bound, read back by reference readers of C and JSON literals")
job("P11", "c-literal", "c_cquote.c", CODEC, dict(N=3), dict(N=4), "any text of 0..N bytes, any buffer size 3..5N+4", ["fits", "cut"])
job("P11", "json-literal", "c_jquote.c", CODEC, dict(N=3), dict(N=5), "any text of 0..N bytes", ["quoted"])
DICT = src("dict.c", "codecs.c", "block.c", "low.c")
job("P11", "c-literal-long", "c_cquote.c", CODEC, dict(LONGMAX=4100), None, "texts of lengths from 64 to 4097, plain or full of characters to quote, the last byte arbitrary, buffers of the size needed, one less and one more", ["fits", "cut"], defs=["LONG=64,65,128,129,256,257,512,513,1024,1025,4097", "NOHEAD", 'FILL="a\\n\\""'])
job("P11", "json-literal-long", "c_jquote.c", CODEC, dict(LONGMAX=4100), None, "texts of the same lengths, the first and last byte arbitrary", ["quoted"], defs=["LONG=" + LN + ",4097", 'FILL="a\\n\\""'])
prop("P12", "every text up to the bound (and after several JSON prefixes) read as JSON; every small dictionary with arbitrary keys and values written and read back")
job("P12", "string", "c_junquote.c", CODEC, dict(N=4), dict(N=5), "a quote followed by any text of 0..N bytes", ["valid", "invalid"], defs=['PRE="\\""'])
job("P12", "string-u", "c_junquote.c", CODEC, dict(N=5), dict(N=5), "\\u followed by 0..N hex digits or quotes", ["valid", "invalid"], defs=['PRE="\\"\\\\u"', "HEXONLY"])
job("P12", "string-pair", "c_junquote.c", CODEC, dict(N=5), dict(N=5), "a high surrogate escape, \\u, and 0..N hex digits or quotes", ["valid", "invalid"], defs=['PRE="\\"\\\\ud83d\\\\u"', "HEXONLY"])
job("P12", "string-any", "c_junquote.c", CODEC, dict(N=4), dict(N=5), "any text of 0..N bytes", [], defs=['PRE=""'])
job("P12", "string-long", "c_junquote.c", CODEC, dict(N=2, LONGMAX=4100), None, "a quote, 63..1025 or 4097 letters, and any 0..N bytes", ["valid", "invalid"], defs=['PRE="\\""', "LONG=" + LN + ",4097"])
job("P12", "string-long-u", "c_junquote.c", CODEC, dict(N=2, LONGMAX=4100), None, "a quote, 63..513 escapes of letters outside ASCII, and any 0..N bytes", ["valid", "invalid"], defs=['PRE="\\""', "LONG=63,127,128,255,256,511,512,513", 'FILL="\\\\u00e9"'])
job("P12", "text-many", "d_json.c", DICT, dict(N=2, DEEP=0), None, "objects of 9, 17, 33, 65, 129 and 257 pairs, then any 0..N bytes", ["long", "refused"], defs=["LONG=8,16,32,64,128,256", "LONGMAX=0"])
job("P12", "text-deep", "d_json.c", DICT, dict(N=2, DEEP=1), None, "objects nested 8, 16, 32 and 64 levels deep, then any 0..N bytes", ["long", "refused"], defs=["LONG=8,16,32,64", "LONGMAX=0"])
job("P12", "roundtrip-long", "d_jrt.c", DICT, dict(MANY=40), dict(MANY=120), "dictionaries of MANY pairs or levels with a key or value of up to 4097 bytes", ["long"], max_instr=20000000, defs=["NOHEAD", "LONG=60,127,128,129,255,256,257,511,512,513,1023,1024,1025,4097", 'FILL="a\\"\\n"', "LONGMAX=4100"])
job("P12", "text", "d_json.c", DICT, dict(N=5), dict(N=6), "any text of 0..N bytes", ["accepted", "refused"])
job("P12", "text-key", "d_json.c", DICT, dict(N=4), dict(N=5), "{ followed by any 0..N bytes", ["accepted", "refused"], defs=['PRE="{"'])
job("P12", "text-value", "d_json.c", DICT, dict(N=4), dict(N=5), "{\"a\": followed by any 0..N bytes", ["accepted", "refused"], defs=['PRE="{\\"a\\":"'])
job("P12", "text-nested", "d_json.c", DICT, dict(N=4), dict(N=5), "a nested object followed by any 0..N bytes", ["accepted", "refused"], defs=['PRE="{\\"a\\":{\\"b\\":\\"c\\"}"'])
job("P12", "text-more", "d_json.c", DICT, dict(N=5), dict(N=6), "a pair, a comma and a key followed by any 0..N bytes", ["accepted", "refused"], defs=['PRE="{\\"a\\":\\"b\\",\\"c\\""'])
job("P12", "roundtrip", "d_jrt.c", DICT, dict(KN=1, VN=2), dict(KN=2, VN=3), "dictionaries of up to two pairs, one level of nesting, any key of 0..KN and value of 0..VN bytes", ["pair", "nested"])
prop("P13", "every history of additions, replacements and removals within the bound, with arbitrary one-byte keys, against an ordered multimap")
job("P13", "history", "d_map.c", DICT, dict(OPS=4), dict(OPS=5), "all histories of OPS operations with arbitrary one-byte keys", ["add", "replace", "remove"])
job("P13", "history-icase", "d_map.c", DICT, dict(OPS=3), dict(OPS=4), "the same, case-insensitive, keys among ten letters", ["add", "replace", "remove"], defs=["ICASE"])
for o, nm in ((0, "ascending"), (1, "descending"), (2, "mixed")):
    job("P13", "tree-" + nm, "d_map.c", DICT, dict(OPS=2, PREFILL=9), dict(OPS=3, PREFILL=9), "a tree of PREFILL keys built in %s order, then all histories of OPS operations starting with a removal" % nm, ["remove"], defs=["ORDER=%d" % o, "FIRSTREMOVE"])
job("P13", "tree-repeated", "d_map.c", DICT, dict(OPS=3, PREFILL=6), dict(OPS=4, PREFILL=8), "a tree with repeated keys, then all histories of OPS operations starting with a removal", ["remove"], defs=["ORDER=2", "FIRSTREMOVE", "DUPS=3"])
job("P13", "tree-repeated2", "d_map.c", DICT, dict(OPS=3, PREFILL=6), dict(OPS=4, PREFILL=8), "a tree with repeated keys, then all histories of OPS operations starting with a removal", ["remove"], defs=["ORDER=0", "FIRSTREMOVE", "DUPS=2"])
job("P13", "tree-many", "d_map.c", DICT, dict(OPS=1, PREFILL=60), dict(OPS=2, PREFILL=60), "a tree of PREFILL keys, then any OPS operations", ["add", "replace", "remove"], defs=["ORDER=2"])
job("P13", "long-keys", "d_map.c", DICT, dict(OPS=3, PREFILL=2), dict(OPS=3, PREFILL=4), "keys of 301 bytes that differ in the last, then any OPS operations", ["add", "replace", "remove"], defs=["ORDER=2", "KL=300"])
prop("P14", "every combination of ownership flags with replacement, removal, soft and hard copies, merging and nesting, with a count of live memory")
job("P14", "ownership", "d_own.c", DICT, dict(), dict(), "two keys, all ownership flags, one further operation, both release orders", ["replace", "soft", "hard", "merge"])
job("P14", "nested", "d_nest.c", DICT, dict(), dict(), "two levels of nesting, borrowed, adopted or copied", ["copied"])
PADS = 'PADS="%s"' % ("x" * 50)
job("P14", "many", "d_copy.c", DICT, dict(MANY=40), dict(MANY=200), "hard copies, merges and soft copies of MANY entries, a quarter of them dictionaries, added in three orders", ["hard", "merge", "soft", "done"], max_instr=20000000)
job("P14", "ownership-long", "d_own.c", DICT, dict(), dict(), "the same with keys and values of 402 bytes", ["replace", "soft", "hard", "merge"], defs=[PADS])
job("P14", "nested-long", "d_nest.c", DICT, dict(), dict(), "the same with keys and values of over 400 bytes", ["copied"], defs=[PADS])
prop("P15", "every history of block operations within the bound, with sizes around the growth steps, against a plain byte string")
job("P15", "history", "b_block.c", src("block.c", "low.c"), dict(OPS=3, MAXSZ=11), dict(OPS=4, MAXSZ=11), "all histories of OPS operations, piece sizes 0..1025 around the growth steps", ["done", "self"])
job("P15", "history-view", "b_block.c", src("block.c", "low.c"), dict(OPS=4, MAXSZ=5), dict(OPS=5, MAXSZ=7), "all histories of OPS operations reading the text after each", ["done", "self"], defs=["VEACH"])
job("P15", "history-big", "b_block.c", src("block.c", "low.c"), dict(OPS=2, MAXSZ=6), dict(OPS=3, MAXSZ=7), "all histories of OPS operations, pieces of 1 to 70001 bytes", ["done", "self"], max_instr=50000000, defs=["SIZES=1,3000,4095,4096,4097,20000,70001,8193", "LIMIT=200000", "OTHER=5000"])
prop("P16", "every history of list operations within the bound against a count per element")
job("P16", "history", "l_list.c", src("ptr_list.c", "low.c"), dict(OPS=4), dict(OPS=5), "all histories of OPS add/remove/filter operations over three pointers", ["removed", "filtered"])
job("P16", "history-many", "l_list.c", src("ptr_list.c", "low.c"), dict(OPS=2, PREFILL=40), dict(OPS=3, PREFILL=300), "a list of PREFILL entries, then all histories of OPS operations", ["removed", "filtered"])

# ------------------------------------------------------------------ P01-P07 request parsing
def cs(s):  # C string literal for -D
    return '"%s"' % "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "\\%03o" % ord(c) for c in s)


H = "GET / HTTP/1.1\r\n"
MP = "POST / HTTP/1.1\r\nContent-Length: 90\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\n"
CD = "Content-Disposition: form-data; name=\"x\""
prop("P01", "every byte string of the stated length from every parser state, cut into every two packets or byte by byte, through the whole request parser, checking memory, progress and release")
STATES = [("start", "", ""), ("url", "GET /", " HTTP/1.1\r\n\r\n"), ("query", "GET /?a", " HTTP/1.1\r\n\r\n"), ("version", "GET / ", "\r\n\r\n"), ("version-end", "GET / HTTP/1.1\r", "A: b\r\n\r\n"),
          ("header", H, "\r\n\r\n"), ("value", H + "A:", "\r\n\r\n"), ("value-end", H + "A: b\r\n", "\r\n\r\n"), ("continuation", H + "A: b\r\n ", "\r\n\r\n"),
          ("length", "POST / HTTP/1.1\r\nContent-Length: ", "\r\n\r\nabcdef"), ("length-put", "PUT / HTTP/1.1\r\nContent-Length: 2", "\r\n\r\nabcdef"), ("length-form", "POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: ", "\r\n\r\na=b&c=%20"),
          ("form", "POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 5\r\n\r\n", "&b=c"), ("put", "PUT / HTTP/1.1\r\nContent-Length: 6\r\n\r\n", "abcd"), ("body", "POST / HTTP/1.1\r\nContent-Length: 6\r\n\r\n", "abcd"),
          ("mp-type", "POST / HTTP/1.1\r\nContent-Length: 30\r\nContent-Type: multipart/form-data; bound", "\r\n\r\n--b\r\n" + CD + "\r\n\r\nv\r\n--b--"),
          ("mp-boundary", "POST / HTTP/1.1\r\nContent-Length: 90\r\nContent-Type: multipart/form-data; boundary=", "\r\n\r\n--b\r\n" + CD + "\r\n\r\nv\r\n--b--"),
          ("mp-start", MP, "\r\n" + CD + "\r\n\r\nv\r\n--b--"), ("mp-next", MP + "--b", CD + "\r\n\r\nv\r\n--b--"), ("mp-header", MP + "--b\r\n", "\r\n\r\nv\r\n--b--"),
          ("mp-disposition", MP + "--b\r\nContent-Disposition:", "\r\n\r\nv\r\n--b--"), ("mp-name", MP + "--b\r\nContent-Disposition: form-data; name=", "\r\n\r\nv\r\n--b--"), ("mp-filename", MP + "--b\r\n" + CD + "; filename=", "\r\n\r\nv\r\n--b--"),
          ("mp-data", MP + "--b\r\n" + CD + "\r\n\r\n", "\r\n--b--"), ("mp-file", MP + "--b\r\n" + CD + "; filename=\"f\"\r\n\r\n", "\r\n--b--")]
for nm, pre, suf in STATES:
    nq = 2 if nm == "length-form" else 3 if nm.startswith("length") else 4
    job("P01", nm, "p_stream.c", RQ, dict(N=nq), dict(N=nq + 1 + (nq == 4)), "any N bytes after %r (then %r), in any two packets" % (pre, suf), [], defs=["PRE=" + cs(pre), "SUF=" + cs(suf)])
for nm, pre, suf in (("long-method", "", " / HTTP/1.1\r\n\r\n"), ("long-url", "GET /", " HTTP/1.1\r\n\r\n"), ("long-version", "GET / ", "\r\n\r\n"), ("long-key", H, ": b\r\n\r\n"), ("long-value", H + "A: ", "\r\n\r\n"), ("long-continuation", H + "A: b\r\n c", "\r\n\r\n"),
                     ("long-disposition", MP + "--b\r\nContent-Disposition: form-data;", "\r\n\r\nv\r\n--b--"), ("long-mp-header", MP + "--b\r\n", ": v\r\n\r\nv\r\n--b--")):
    job("P01", nm, "p_stream.c", RQ, dict(N=5, FILL=8188 - (4 if "continuation" in nm else 0)), dict(N=6, FILL=8187 - (4 if "continuation" in nm else 0)), "a token filled to just below the internal limit, then any N bytes one by one", [], defs=["PRE=" + cs(pre), "SUF=" + cs(suf), "BYTES", "ALPHA=" + cs("a \t\r\n:;\0")])
for nm, pre, mp in (("full-data", MP + "--b\r\n" + CD + "\r\n\r\n", 8), ("full-name", MP + "--b\r\nContent-Disposition: form-data; name=", 4), ("full-filename", MP + "--b\r\n" + CD + "; filename=", 8)):
    job("P01", "mp-" + nm, "p_stream.c", RQ, dict(N=6, MAXPOST=mp), dict(N=8, MAXPOST=mp), "a form with room for only MAXPOST bytes, then N bytes one by one", [], defs=["PRE=" + cs(pre), "SUF=" + cs("\r\n--b--"), "BYTES", "ALPHA=" + cs('a"\r\n-')])
prop("P02", "every stream of the stated shape delivered whole and cut at every position or byte by byte, comparing verdict and every field of the two requests")
SPLIT = [("url", "GET /", " HTTP/1.1\r\n\r\n", 3), ("version", "GET / HTTP/1.", "\r\nA: b\r\n\r\n", 3), ("version-end", "GET / HTTP/1.1", "A: b\r\n\r\n", 4), ("header", H, ": b\r\n\r\n", 3), ("value", H + "A:", "\r\n\r\n", 4), ("value-end", H + "A: b", "c: d\r\n\r\n", 5), ("continuation", H + "A: b\r\n ", "\r\nC: d\r\n\r\n", 4),
         ("form", "POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 5\r\n\r\n", "&b=c", 3), ("body", "POST / HTTP/1.1\r\nContent-Length: 6\r\n\r\n", "abcd", 4), ("put", "PUT / HTTP/1.1\r\nContent-Length: 6\r\n\r\n", "abcd", 4),
         ("length", "POST / HTTP/1.1\r\nContent-Length: ", "\r\n\r\nabcdef", 2),
         ("mp-start", MP, "\r\n" + CD + "\r\n\r\nv\r\n--b--", 3), ("mp-next", MP + "--b", CD + "\r\n\r\nv\r\n--b--", 3), ("mp-header", MP + "--b\r\nContent-Disposition", " form-data; name=\"x\"\r\n\r\nv\r\n--b--", 2), ("mp-name", MP + "--b\r\nContent-Disposition: form-data; name=", "\r\n\r\nv\r\n--b--", 3),
         ("mp-data", MP + "--b\r\n" + CD + "\r\n\r\n", "\r\n--b--", 4), ("mp-data-end", MP + "--b\r\n" + CD + "\r\n\r\nv", "--", 5), ("mp-file", MP + "--b\r\n" + CD + "; filename=\"f\"\r\n\r\n", "\r\n--b--", 4), ("mp-file-end", MP + "--b\r\n" + CD + "; filename=\"f\"\r\n\r\nv", "--", 5)]
for nm, pre, suf, n in SPLIT:
    job("P02", nm, "p_split.c", RQ, dict(N=n, BACK=2, FWD=3), dict(N=n + 1, BACK=90, FWD=20), "any N bytes between %r and %r, cut at every position from BACK bytes before to FWD bytes after them, or byte by byte" % (pre, suf), [], defs=["PRE=" + cs(pre), "SUF=" + cs(suf)])
for nm, pre, suf in (("long-query", "GET /p?a=", "&b=c HTTP/1.1\r\nH: v\r\n\r\n"), ("long-header", "GET / HTTP/1.1\r\nA: ", "\r\nB: c\r\n\r\n"), ("long-field", "POST / HTTP/1.1\r\nContent-Length: 9000\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\n--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\n", "\r\n--b--"), ("long-file", "POST / HTTP/1.1\r\nContent-Length: 9000\r\nContent-Type: multipart/form-data; boundary=b\r\n\r\n--b\r\nContent-Disposition: form-data; name=\"a\"; filename=\"f\"\r\n\r\n", "\r\n--b--")):
    job("P02", nm, "p_split.c", RQ, dict(N=1), dict(N=2), "%r, 60 to 5000 bytes, any N bytes and %r, whole and in packets of 1 to 4096 bytes" % (pre, suf), ["ready"], defs=["PRE=" + cs(pre), "SUF=" + cs(suf), "LONG=60,255,256,1023,1024,1025,2048,3000,5000", "LONGMAX=8000", "FSMAX=6000"] + (["FILL=" + cs("a\r\n-")] if "fi" in nm else []), max_instr=20000000)
prop("P03", "every method word, path, version and pair of headers within the bound, with both line endings and continuation lines, compared with what was sent")
job("P03", "method", "p_line.c", RQ, dict(N=5, MODE=0), dict(N=8, MODE=0), "any method word of 1..N bytes", ["known", "unknown"])
job("P03", "method-near", "p_line.c", RQ, dict(N=5, MODE=3), None, "every known method with any one character replaced", ["known", "unknown"])
job("P03", "path", "p_line.c", RQ, dict(N=4, MODE=1), dict(N=5, MODE=1), "any path of 0..N bytes after '/', any version differing in one character", ["ready"])
job("P03", "after-version", "p_line.c", RQ, dict(N=2, MODE=4), dict(N=4, MODE=4), "any 1..N bytes between the version and the rest of the request line", ["refused"])
job("P03", "headers", "p_line.c", RQ, dict(N=3, MODE=2), dict(N=4, MODE=2), "two headers with any names of one or two characters, any value of 0..N bytes, optional continuation line", ["fold", "plain"])
LP = "63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048,2049,4095,4096,4097,7900"
LQ = "64,100,256,257,512,513,1024,1025,2048,2049,4097,7000"
job("P03", "long-path", "p_long.c", RQ, dict(MODE=1, PACKETS=8), None, "paths of 63 to 7900 bytes, the last arbitrary, whole or in packets of 1 to 8192 bytes", ["done"], defs=["LONG=" + LP, "LONGMAX=8000"], max_instr=20000000)
job("P03", "long-headers", "p_long.c", RQ, dict(MODE=2, PACKETS=8, MANY=30), dict(MODE=2, PACKETS=8, MANY=120), "MANY headers, one with a value of 63 to 7900 bytes, the last arbitrary, whole or in packets", ["done"], defs=["LONG=" + LP, "LONGMAX=8000"], max_instr=20000000)
prop("P04", "every query string and urlencoded body up to the bound against a reference splitter and decoder", ["percent signs that do not start a valid escape have no defined meaning and are left to P01 and P08"])
job("P04", "query", "p_query.c", RQ, dict(N=5), dict(N=6), "any query of 0..N bytes", ["done", "several"])
job("P04", "query-shape", "p_query.c", RQ, dict(N=7), dict(N=9), "queries of 0..N characters over a letter, '=', '&' and '+'", ["done", "several"], defs=["ALPHA=" + cs("a=&+")])
job("P04", "query-escape", "p_query.c", RQ, dict(N=7), dict(N=9), "queries of 0..N characters over '%', two hex digits, '=' and '&'", ["done", "several"], defs=["ALPHA=" + cs("%26=&")])
job("P04", "form", "p_query.c", RQ, dict(N=4), dict(N=5), "any form of 0..N bytes", ["done", "several"], defs=["FORM"])
job("P04", "form-shape", "p_query.c", RQ, dict(N=7), dict(N=8), "forms of 0..N characters over '%', a hex digit, a letter, '=' and '&'", ["done", "several"], defs=["FORM", "ALPHA=" + cs("%2z=&")])
job("P04", "long-query", "p_long.c", RQ, dict(MODE=3, PACKETS=8, MANY=30), dict(MODE=3, PACKETS=8, MANY=100), "MANY query values, one of 64 to 7000 bytes, whole or in packets", ["done"], defs=["LONG=" + LQ, "LONGMAX=8000"], max_instr=20000000)
job("P04", "long-form", "p_long.c", RQ, dict(MODE=6, PACKETS=8, MANY=30), dict(MODE=6, PACKETS=8, MANY=100), "MANY form values, one of 64 to 20000 bytes, whole or in packets", ["done"], defs=["LONG=" + LQ + ",9000,20000", "LONGMAX=8000"], max_instr=50000000)
prop("P05", "every length text within the bound (and around the 32 and 64 bit limits), every limit, every body and cut of it, for memory bodies and uploads, with temporary file failures")
PUT = "PUT / HTTP/1.1\r\nContent-Length: "
PF = "PROPFIND / HTTP/1.1\r\nContent-Type: text/xml\r\nContent-Length: "
B5 = dict(N=2, LMIN=0, BODY=3, LIMIT=4)
job("P05", "post", "p_body.c", RQ, B5, dict(N=3, LMIN=0, BODY=5, LIMIT=6), "any length text of 0..N bytes, limits 0..LIMIT, BODY arbitrary bytes, all cuts", ["ready", "more", "refused"])
job("P05", "put", "p_body.c", RQ, B5, dict(N=3, LMIN=0, BODY=5, LIMIT=6), "the same for uploads to a temporary file", ["ready", "more", "refused"], defs=["PUTM", "HEAD=" + cs(PUT)])
job("P05", "other", "p_body.c", RQ, dict(N=1, LMIN=1, BODY=2, LIMIT=3), B5, "the same for another method with a body", ["ready", "more", "refused"], defs=["HEAD=" + cs(PF)])
job("P05", "put-faults", "p_body.c", RQ, dict(N=1, LMIN=1, BODY=2, LIMIT=3), dict(N=2, LMIN=1, BODY=3, LIMIT=4), "uploads with any failure of creating or writing the temporary file", ["ready", "refused"], defs=["PUTM", "FAULTS", "HEAD=" + cs(PUT)])
for nm, lp in (("u64", "184467440737095516"), ("i64", "92233720368547758"), ("u32", "42949672"), ("i32", "21474836"), ("zero", "000000000000000000000"), ("minus", "-"), ("minus64", "-184467440737095516")):
    for m, hd in (("post", None), ("put", PUT)):
        job("P05", "%s-%s" % (m, nm), "p_body.c", RQ, dict(N=3, LMIN=1, BODY=1, LIMIT=3), dict(N=4, LMIN=1, BODY=2, LIMIT=4), "length texts of %s and 1..N digits" % lp, ["refused"], defs=["DIGITS", "LPRE=" + cs(lp)] + (["PUTM", "HEAD=" + cs(hd)] if hd else []))
job("P05", "long", "p_long.c", RQ, dict(MODE=5, PACKETS=8), None, "bodies of 63 to 9000 bytes, limits just below, at and above, whole or in packets of 1 to 8192 bytes", ["done", "refused"], defs=["LONG=" + LP + ",8191,8192,8193,9000", "LONGMAX=8000", "FILL=" + cs("a\r\n\0")], max_instr=50000000)
prop("P06", "every field value and file content within the bound (arbitrary bytes, and longer ones over the boundary's own characters), with every cut, field name, limit and temporary file failure",
     ["field names without quotes, semicolons and line breaks; the boundary is the last parameter, unquoted; text values have no NUL byte; contents hold no line that starts with the boundary"])
for nm, d in (("field", []), ("file", ["FILEF"])):
    job("P06", nm + "-bytes", "p_multi.c", RQ, dict(N=3, VMIN=0, NAME=1, SECOND=0, BACK=1, FWD=6), dict(N=4, VMIN=0, NAME=1, SECOND=0, BACK=1, FWD=6), "any content of 0..N bytes, all cuts around it, byte by byte", ["ready"], defs=d)
    job("P06", nm + "-near", "p_multi.c", RQ, dict(N=6, VMIN=5, NAME=1, SECOND=0, BACK=0, FWD=0), dict(N=8, VMIN=5, NAME=1, SECOND=0, BACK=0, FWD=6), "contents of VMIN..N characters of the boundary line and one other, all cuts", ["ready"], defs=d + ["ALPHA=" + cs("\r\n-bx")])
    job("P06", nm + "-near-long", "p_multi.c", RQ, dict(N=6, VMIN=6, NAME=1, SECOND=0, BACK=0, FWD=0), dict(N=8, VMIN=8, NAME=1, SECOND=0, BACK=0, FWD=6), "the same with a boundary of several dashes", ["ready"], defs=d + ["ALPHA=" + cs("\r\n-x"), "BND=" + cs("--x")])
    job("P06", nm + "-lf", "p_multi.c", RQ, dict(N=4, VMIN=0, NAME=1, SECOND=0, BACK=0, FWD=4), dict(N=6, VMIN=0, NAME=1, SECOND=0, BACK=1, FWD=6), "contents of 0..N characters of the boundary line, line feed endings", ["ready"], defs=d + ["ALPHA=" + cs("\r\n-bx"), 'EOL="\\n"'])
    job("P06", nm + "-two", "p_multi.c", RQ, dict(N=2, VMIN=0, NAME=1, SECOND=2, BACK=0, FWD=60), dict(N=3, VMIN=0, NAME=1, SECOND=2, BACK=0, FWD=140), "any content of 0..N bytes followed by another field or file, all cuts", ["ready", "second"], defs=d)
    job("P06", nm + "-name", "p_multi.c", RQ, dict(N=1, VMIN=1, NAME=3, SECOND=1, BACK=0, FWD=0), dict(N=1, VMIN=1, NAME=4, SECOND=2, BACK=8, FWD=0), "any field name of 1..NAME bytes", ["ready", "second"], defs=d)
job("P06", "file-limit", "p_multi.c", RQ, dict(N=6, VMIN=0, NAME=1, SECOND=2, BACK=0, FWD=0), dict(N=8, VMIN=0, NAME=1, SECOND=2, BACK=0, FWD=6), "contents of 0..N characters of the boundary line, limits 0..MAXFILE bytes", ["ready", "over", "second"], defs=["FILEF", "MAXFILE=12", "ALPHA=" + cs("\nx")])
job("P06", "field-limit", "p_multi.c", RQ, dict(N=12, VMIN=0, NAME=1, SECOND=1, BACK=0, FWD=0), dict(N=16, VMIN=0, NAME=1, SECOND=2, BACK=0, FWD=6), "values of 0..N bytes, limits 0..MAXPOST", ["ready", "over", "second"], defs=["MAXPOST=30", "ALPHA=" + cs("x")])
job("P06", "file-faults", "p_multi.c", RQ, dict(N=3, VMIN=0, NAME=1, SECOND=2, BACK=0, FWD=0), dict(N=4, VMIN=0, NAME=1, SECOND=2, BACK=0, FWD=4), "any failure of creating or writing the temporary files", ["ready", "second"], defs=["FILEF", "FAULTS", "ALPHA=" + cs("\nx")])
for nm, d in (("field", []), ("file", ["FILEF"])):
    job("P06", nm + "-buffer", "p_multi.c", RQ, dict(N=7, VMIN=0, NAME=1, SECOND=0, BACK=0, FWD=0, FILL=1020), dict(N=9, VMIN=0, NAME=1, SECOND=2, BACK=2, FWD=4, FILL=1020), "contents of FILL..FILL+N bytes, around the size of the parser's buffer, the last over two characters", ["ready"], defs=d + ["ALPHA=" + cs("\nx")])
job("P06", "long", "p_long.c", RQ, dict(MODE=7, PACKETS=8, MANY=14), dict(MODE=7, PACKETS=8, MANY=60), "MANY fields and files, one with a name of up to 303 and a value of 64 to 7000 bytes, file names of up to 200 and boundaries of up to 70 bytes, whole or in packets", ["done"], defs=["LONG=64,300,1024,7000", "LONGMAX=8000"], max_instr=50000000)
prop("P07", "every cookie header up to the bound against a reference splitter", ["tabs are not used as blanks; header values with line breaks are P03's"])
job("P07", "any", "p_cookie.c", RQ, dict(N=5), dict(N=7), "any header value of 0..N bytes", ["done", "several"])
job("P07", "shape", "p_cookie.c", RQ, dict(N=8), dict(N=10), "values of 0..N characters over a letter, '=', ';' and blank", ["done", "several"], defs=["ALPHA=" + cs("a=; ")])

# ------------------------------------------------------------------ P17-P20 responses
RP = RS + src("handler.c")
job("P07", "long", "p_long.c", RQ, dict(MODE=4, PACKETS=8, MANY=30), dict(MODE=4, PACKETS=8, MANY=100), "MANY cookies, one of 64 to 7000 bytes, whole or in packets", ["done"], defs=["LONG=" + LQ, "LONGMAX=8000"], max_instr=20000000)
prop("P17", "every sequence of writes and flushes within the bound with piece sizes around the buffer size, every request kind and partial write pattern, decoded by a reference HTTP client",
     ["handlers that announce a length write that many bytes; piece contents are arbitrary at both ends"])
RB = dict(OPMIN=0, OPS=2, OPKINDS=2, SIZES=9, LENMODES=3, RETS=1, REQS=4, CONS=3, NOKEEP=0)
job("P17", "writes", "r_body.c", RP, RB, dict(RB, OPS=3), "0..OPS writes or flushes with sizes 0, 1, 2, around 1, 2 and 3 buffers; all request kinds", ["chunked", "length", "until close"], max_instr=20000000)
job("P17", "writes-long", "r_body.c", RP, dict(RB, OPMIN=3, OPS=3, SIZES=4, REQS=1, CONS=2), dict(RB, OPMIN=4, OPS=4, SIZES=6, REQS=2, CONS=1), "OPS writes or flushes", ["chunked", "length"], max_instr=20000000)
job("P17", "text", "r_body.c", RP, dict(RB, OPMIN=1, OPS=1, OPKINDS=4, REQS=3), dict(RB, OPMIN=1, OPS=2, OPKINDS=4, REQS=3, CONS=1), "texts written whole or formatted", ["chunked", "length"], max_instr=20000000)
job("P17", "partial", "r_body.c", RP, dict(RB, OPMIN=1, OPS=2, SIZES=4, CONS=1, REQS=1), dict(RB, OPMIN=1, OPS=2, SIZES=6, CONS=1), "the same when the connection takes the first PW writes only in part", ["chunked", "length"], defs=["PW=5"], max_instr=20000000)
for _sz, _o, _n in (("4095,4096,4097,9000", 40000, 4), ("16384,20000,65535,65536", 300000, 4), ("70001,66000", 300000, 2)):
    job("P17", "big-%s" % _sz.split(",")[0], "r_body.c", RP, dict(RB, OPMIN=1, OPS=1, SIZES=_n, CONS=1, LENMODES=3), dict(RB, OPMIN=2, OPS=2, SIZES=_n, CONS=1, REQS=2, LENMODES=2), "writes of %s bytes" % _sz, ["chunked", "length"], max_instr=90000000, defs=["OUTMAX=%d" % _o, "EXPMAX=%d" % (_o - 1000), "PIECE=80000", "SIZELIST=" + _sz])
prop("P18", "every protocol version, connection header, server switch, length mode and body within the bound: the verdict against the rule, and against what was announced")
job("P18", "decision", "r_body.c", RP, dict(RB, OPS=2, SIZES=4, NOKEEP=1), dict(RB, OPS=2, SIZES=9, NOKEEP=1), "all request kinds, connection headers and length modes; 0..OPS writes", ["kept", "closed", "chunked", "length", "until close"], max_instr=20000000)
job("P18", "handler-closes", "r_body.c", RP, dict(RB, OPS=1, SIZES=4, RETS=2), None, "the same with handlers that ask to close", ["kept", "closed"], max_instr=20000000)
job("P18", "wrong-length", "r_body.c", RP, dict(RB, OPS=2, SIZES=4, LENMODES=1), dict(RB, OPS=3, SIZES=6, LENMODES=1, CONS=2), "handlers that announce more or fewer bytes than they write", ["kept", "closed", "wrong length"], defs=["WRONGLEN"], max_instr=20000000)
prop("P20", "a write failure of every kind at every position of the responses within the bound")
job("P20", "fail", "r_body.c", RP, dict(RB, OPS=2, SIZES=6, REQS=2, CONS=1), dict(RB, OPS=3, SIZES=6), "the connection fails at the n-th write (refused, error, or after taking half), n up to FAIL", ["failed", "partial"], defs=["FAIL=9"], max_instr=20000000)
prop("P19", "every status code, header pair, length class and cookie (all attributes, sizes around the limit) within the bound, read by a reference client", ["header and cookie texts have no line breaks"])
job("P19", "code", "r_head.c", RP, dict(MODE=0), None, "all status codes 100..599", ["done", "known"])
job("P19", "headers", "r_head.c", RP, dict(MODE=1, N=3), dict(MODE=1, N=4), "any header name of 1..N and value of 0..N bytes, with others replaced", ["done"])
job("P19", "headers-many", "r_head.c", RP, dict(MODE=4, MANY=30), dict(MODE=4, MANY=100), "MANY headers, one of them of 63 to 4097 bytes, the last arbitrary", ["done"], defs=["LONG=63,127,128,255,256,257,500,1024,1025,1490,1500,1501,2048,4097", "LONGMAX=4100"], max_instr=20000000)
job("P19", "cookies-many", "r_head.c", RP, dict(MODE=5, MANY=30), dict(MODE=5, MANY=60), "MANY cookies, one of them of 63 to 4000 bytes, the last arbitrary", ["done"], defs=["LONG=63,127,128,255,256,257,500,1024,1025,1500,2048,4000", "LONGMAX=4100"], max_instr=20000000)
job("P19", "date", "r_date.c", RP, dict(MODE=1, STEPS=3), dict(MODE=1, STEPS=4), "STEPS responses at four moments, the clock moving by up to a day or back, cookies of four lifetimes, a local zone", ["cookie", "done"], max_instr=20000000)
job("P19", "length", "r_head.c", RP, dict(MODE=2), None, "lengths in six windows, up to 2^64", ["done"])
CKS = dict(MODE=3, SZ=19, FLAGS=0)
job("P19", "cookie-size", "r_head.c", RP, CKS, dict(MODE=3, SZ=19, FLAGS=1), "cookies whose name, value, path or domain has 1..4100 bytes, no or many flags, all lifetimes, with another cookie", ["done", "cookie", "refused", "two"], max_instr=20000000)
job("P19", "cookie-flags", "r_head.c", RP, dict(MODE=3, SZ=1, FLAGS=1), None, "all flags, lifetimes and attributes", ["done", "cookie", "two"], max_instr=20000000)

# ------------------------------------------------------------------ P21-P22 sessions
SS = src("sessions.c", "dict.c", "codecs.c", "block.c", "low.c")
prop("P22", "every history of saves, removals and lookups with two arbitrary identifiers within the bound against a plain map, for the three stores; the database and key-value server are models that take bound values only",
     ["sqlite3 and hiredis are models of the calls the stores make (bound texts are read when the statement runs, formats are split at blanks); session values are ASCII"])
for b, nm, f in ((0, "memory", "sessions_mem.c"), (1, "sqlite3", "sessions_sqlite3.c"), (2, "redis", "sessions_redis.c")):
    job("P22", nm, "s_store.c", SS + src(f), dict(BACK=b, OPS=3, IDN=2), dict(BACK=b, OPS=4, IDN=2), "all histories of OPS operations on two identifiers of 1..IDN arbitrary bytes", ["done", "replaced", "removed", "created"], defs=[], budget=dict(quick=200, thorough=1500))
    if b:
        job("P22", nm + "-faults", "s_store.c", SS + src(f), dict(BACK=b, OPS=2, IDN=1), dict(BACK=b, OPS=3, IDN=1), "the same when any one call of the store's library fails", ["done", "no store", "created"], defs=["FAULTS=12"])
for nm, b, f in (("memory", 0, "sessions_mem.c"), ("sqlite3", 1, "sessions_sqlite3.c"), ("redis", 2, "sessions_redis.c")):
    job("P22", nm + "-many", "s_store.c", SS + src(f), dict(BACK=b, OPS=2, IDN=1, MANY=20), dict(BACK=b, OPS=3, IDN=1, MANY=60), "all histories of OPS operations on two identifiers of 32 bytes, sessions of MANY values, one of 399 bytes", ["done", "replaced", "removed", "created"], defs=[], max_instr=20000000)
    job("P22", nm + "-sessions", "s_store.c", SS + src(f), dict(BACK=b, OPS=2, IDN=1, PRE=30), dict(BACK=b, OPS=3, IDN=1, PRE=150), "the same among PRE other sessions, all of which stay as they are", ["done", "replaced", "removed", "created"], defs=[], max_instr=20000000)
prop("P21", "identifiers from arbitrary random bytes; arbitrary cookie headers around one or two session cookies against a reference splitter; every history of requests (cookie presented, operation on the session, way to end) against a plain map",
     ["identifier generation is checked as a function of the random bytes; the quality of the random generator itself is outside"])
job("P21", "identifier", "s_join.c", SS + src("sessions_mem.c") , dict(MODE=1), None, "all 32 random bytes, one of them replaced by any other", ["done"])
job("P21", "cookie", "s_join.c", RP + src("sessions.c", "sessions_mem.c"), dict(MODE=2, XN=3, YN=3, ZN=2), dict(MODE=2, XN=4, YN=4, ZN=3), "all texts of the given sizes before, between and after one or two session cookies", ["done", "joined", "new"])
job("P21", "cookie-long", "s_join.c", RP + src("sessions.c", "sessions_mem.c"), dict(MODE=2, XN=1, YN=2, ZN=1, XFILL=5000), dict(MODE=2, XN=2, YN=2, ZN=2, XFILL=5000), "the same after 40 to 4200 bytes of other cookies", ["done", "joined", "new"], max_instr=20000000)
job("P21", "many", "s_join.c", RP + src("sessions.c", "sessions_mem.c"), dict(MODE=4, MANY=30), dict(MODE=4, MANY=100), "MANY values in one session over three requests, one of 63 to 4097 bytes, among other sessions", ["done"], defs=["LONG=63,64,128,255,256,300,1024,4097", "LONGMAX=4100"], max_instr=20000000)
job("P21", "failing-store", "s_join.c", RP + src("sessions.c", "sessions_mem.c"), dict(MODE=5), None, "three requests with a store any of whose operations may fail, or none", ["found", "fresh", "done"], max_instr=3000000)
job("P21", "histories", "s_join.c", RP + src("sessions.c", "sessions_mem.c"), dict(MODE=3, REQS=3), dict(MODE=3, REQS=4), "all sequences of REQS requests, 7 uses of the session, every cookie", ["done", "announced", "forgotten"], max_instr=30000000)

# ------------------------------------------------------------------ P23-P25 websocket
WS = RP + src("websocket.c")
def lens(*r):
    return ",".join(str(x) for a, b in r for x in range(a, b + 1))
prop("P23", "messages of every length around the encodings and buffer sizes, with arbitrary bytes at both ends and in the middle, read back by a reference frame decoder; short and failing writes at every call",
     ["message lengths are those listed; the bytes between the arbitrary ones are a fixed pattern"])
job("P23", "short", "w_write.c", WS, dict(MSGS=2), None, "two messages of 0..3, 124..128 bytes", ["7", "16", "done"], defs=['LENS=' + lens((0, 3), (124, 128))])
job("P23", "buffers", "w_write.c", WS, dict(MSGS=1), None, "lengths around 255, 512, 1024, 2048, 4096 and 8192 bytes", ["16", "done"], defs=['LENS=' + lens((254, 257), (510, 514), (1022, 1026), (2046, 2050), (3071, 3073), (4094, 4098), (8191, 8193))], max_instr=50000000)
job("P23", "long", "w_write.c", WS, dict(MSGS=1), None, "lengths around 32768, 65535 and 131072 bytes", ["16", "64", "done"], defs=['LENS=' + lens((32767, 32769), (65534, 65538), (131072, 131072))], max_instr=200000000)
job("P23", "faults", "w_write.c", WS, dict(MSGS=1), dict(MSGS=2), "short and failing writes at any of the first calls", ["7", "16", "failed", "done"], defs=['FAULTS=1', 'LENS=' + lens((0, 4), (126, 126), (1025, 1025), (2048, 2048))], max_instr=50000000)
job("P23", "formatted", "w_write.c", WS, dict(MSGS=1), None, "formatted messages of 0..2, 123..127, 507..515, 1021..1026 bytes", ["7", "16", "done"], defs=['FMT=1', 'LENS=' + lens((0, 2), (123, 127), (507, 515), (1021, 1026))], max_instr=50000000)
prop("P24", "any bytes from the peer up to the bound, cut into pieces anywhere, read by the application or announced to its callback, against a reference frame decoder; every length encoding; long masked messages",
     ["the event wait always reports data; frames longer than the stream appear as truncated"])
for m, nm in ((1, "read"), (2, "callback")):
    job("P24", nm, "w_read.c", WS, dict(MODE=m, N=9 - m, NLO=0, ASK=2), dict(MODE=m, N=10 - m, NLO=0, ASK=3), "all streams of 0..N bytes", ["done", "data", "answered", "closed"], max_instr=20000000)
    job("P24", nm + "-16bit", "w_read.c", WS, dict(MODE=m, N=10 - m, NLO=7, ASK=3), dict(MODE=m, N=11, NLO=4, ASK=3), "streams of up to N bytes beginning with a 16 bit length", ["done", "data"], defs=["B1=126"], max_instr=20000000)
    job("P24", nm + "-64bit", "w_read.c", WS, dict(MODE=m, N=16 - m, NLO=13, ASK=3), dict(MODE=m, N=17, NLO=8, ASK=3), "streams of up to N bytes beginning with a 64 bit length", ["done", "data"], defs=["B1=127"], max_instr=20000000)
    job("P24", nm + "-long", "w_read.c", WS, dict(MODE=m, PAY=300, ASK=128), dict(MODE=m, PAY=1100, ASK=700), "one frame of 125 or PAY bytes in each encoding, arbitrary mask, every cut", ["done", "data"], max_instr=50000000)
for nm, m in (("callback", 2), ("read", 1)):
    job("P24", nm + "-big", "w_read.c", WS, dict(MODE=m, PAY=5000, ASK=5000), dict(MODE=m, PAY=70000, ASK=70000), "one frame of 125 or PAY bytes in the longer encodings, arbitrary mask, several cuts", ["done", "data"], defs=["FEWCUTS", "OUTMAX=80000"], max_instr=90000000)
prop("P25", "all upgrade texts, versions, keys and subprotocols up to the bound; the hash is a stand-in that records exactly what is hashed and returns arbitrary bytes",
     ["SHA1 itself is the TLS library's; its input is compared with key + fixed text and its output with the token sent"])
job("P25", "upgrade", "w_up.c", WS, dict(MODE=1), None, "all texts of 0..3 and 9 bytes in Upgrade", ["upgraded", "refused", "done"])
job("P25", "handshake", "w_up.c", WS, dict(MODE=2, VN=3, KN=3), dict(MODE=2, VN=4, KN=8), "all versions of 0..VN and keys of 0..KN bytes, with and without subprotocol", ["upgraded", "refused", "done"])
job("P25", "long-texts", "w_up.c", WS, dict(MODE=3), None, "keys and subprotocols of 1, 2, 15, 16, 23..29, 32, 36, 48, 63..65, 100, 128 and 220 bytes", ["upgraded", "done"])

# ------------------------------------------------------------------ P26-P31 handlers
ON = WS + src("onion.c", "listen_point.c", "sessions.c", "sessions_mem.c", "http.c", "mime.c", "url.c")
prop("P26", "every chain of handlers with every verdict and amount of own output up to the bound, through the real request processing and default error page, read by a reference client",
     ["the yield verdict (long polling) hands the request to another owner and is not part of the chain check"])
job("P26", "chains", "h_chain.c", ON, dict(HN=3), dict(HN=4), "all chains of 1..HN handlers, 8 verdicts, 3 ways of writing before", ["handled", "404", "403", "501", "500", "done"], max_instr=20000000)
job("P26", "chains-many", "h_chain.c", ON, dict(HN=13, HLO=12), dict(HN=41, HLO=40), "chains of HLO and HN handlers of which the last one or two decide", ["handled", "404", "403", "501", "500", "done"], max_instr=20000000)
prop("P27", "every table of plain and regular-expression rules, path and match result up to the bound (the matcher is a stand-in that answers anything consistent), against a reference dispatcher",
     ["the regular expression engine is the C library's; its answers are arbitrary but consistent and within the text; paths use three characters"])
job("P27", "tables", "h_url.c", ON, dict(RN=1, PN=2), dict(RN=2, PN=2), "tables of 1..RN rules, one of them possibly nested, paths of 0..PN characters", ["rule", "nested", "next", "done"], max_instr=20000000)
job("P27", "two-rules", "h_url.c", ON, dict(RN=2, PN=1), dict(RN=2, PN=1), "tables of 1..2 rules, paths of 0..1 characters", ["rule", "nested", "next", "done"], max_instr=20000000)
job("P27", "path-handler", "h_url.c", ON + src("handlers/path.c"), dict(RN=1, PN=1), dict(RN=1, PN=2), "the same below a path handler", ["rule", "nested", "next", "done"], defs=["PATHH=1"], max_instr=20000000)
job("P27", "last-group", "h_url.c", ON, dict(RN=1, PN=2), dict(RN=1, PN=2), "tables of one rule with groups 1 and 15", ["rule", "nested", "next", "done"], defs=["G2=15"], max_instr=20000000)
job("P27", "many-rules", "h_url.c", ON, dict(RN=1, PN=1, MANY=15), dict(RN=1, PN=2, MANY=60), "tables of MANY rules that do not match and one more", ["rule", "nested", "next", "done"], max_instr=20000000)
prop("P30", "every range text up to the bound for several file sizes (also beyond 4 GiB), every method and validator, long headers, and every pattern of short, interrupted and failed reads and sends within the bound, read by a reference client; the file system is a model",
     ["file content is a fixed function of the offset; at most FAULTS system calls misbehave"])
SC = [x for x in ON if not x.endswith("/mime.c")] + src("shortcuts.c")
job("P30", "range", "x_file.c", SC, dict(N=3), dict(N=4), "any range text of 0..N bytes, files of 0, 1, 3 and 12 bytes", ["range", "full", "unsatisfiable", "done"], defs=["MODE=1", "SENDF=0", 'PRE="bytes="', "SIZES={0,1,3,12}"], max_instr=20000000)
job("P30", "range-digits", "x_file.c", SC, dict(N=4), dict(N=5), "ranges of 0..N digits and dashes, file of 12 bytes", ["range", "full", "unsatisfiable", "done"], defs=["MODE=1", "SENDF=0", 'PRE="bytes="', "SIZES={12}", "DIGITS"], max_instr=20000000)
job("P30", "range-unit", "x_file.c", SC, dict(N=6), dict(N=7), "any Range header of 0..N bytes", ["full", "done"], defs=["MODE=1", "SENDF=0", 'PRE=""', "SIZES={3}"], max_instr=20000000)
job("P30", "range-huge", "x_file.c", SC, dict(N=2), dict(N=3), "ranges starting beyond 4 GiB of a larger file, ending in any 0..N bytes", ["range", "done"], defs=["MODE=1", "SENDF=0", 'PRE="bytes=5000000000-50000000"', "SIZES={5000000005UL}"], max_instr=20000000)
job("P30", "range-overflow", "x_file.c", SC, dict(N=2), dict(N=3), "ranges with numbers near the limits of 64 bits, ending in any 0..N bytes", ["unsatisfiable", "done"], defs=["MODE=1", "SENDF=0", 'PRE="bytes=922337203685477580"', "SIZES={3}"], max_instr=20000000)
job("P30", "methods", "x_file.c", SC, dict(), None, "all methods, validators of 0..3 bytes and the real ones, ranges up to 2000 characters, missing files", ["method", "long", "unchanged", "changed", "done"], defs=["MODE=2", "SENDF=0"], max_instr=20000000)
job("P30", "reads", "x_file.c", SC, dict(FAULTS=2), dict(FAULTS=4), "files of 1 to 8093 bytes, FAULTS short, interrupted or failed reads anywhere, files that shrink or grow", ["whole", "cut", "done"], defs=["MODE=3", "SENDF=0", "SIZES={2,4045,4046,4047,8093}", "OUTMAX=20000"], max_instr=50000000)
job("P30", "sendfile", "x_file.c", SC, dict(FAULTS=2), dict(FAULTS=5), "files of 16384 bytes and more, FAULTS short, interrupted or failed sends anywhere", ["whole", "cut", "done"], defs=["MODE=3", "SENDF=1", "SIZES={16383,16384,16389}", "OUTMAX=20000"], max_instr=50000000)
job("P30", "long-own-write", "x_file.c", SC, dict(FAULTS=1), dict(FAULTS=3), "files of 16384 bytes and more, a connection with its own way of writing (TLS), FAULTS short, interrupted or failed reads anywhere", ["whole", "cut", "done"], defs=["MODE=3", "SENDF=0", "SIZES={16383,16384,16389}", "OUTMAX=20000"], max_instr=50000000)
job("P30", "move", "x_move.c", SC, dict(FAULTS=2), dict(FAULTS=4), "files of 0 to 4099 bytes, FAULTS short, interrupted or failed calls anywhere", ["renamed", "copied", "failed", "done"], defs=["MODE=1"], max_instr=20000000)
job("P30", "dates", "x_move.c", SC, dict(), None, "any time, formatted texts of 0..40 characters", ["done"], defs=["MODE=2"], max_instr=20000000)
job("P30", "redirects", "x_move.c", SC, dict(), None, "internal redirect to any part of the own path, redirect to any text of 0..3 bytes, JSON of any value of 0..2 bytes", ["internal", "redirect", "json", "text", "done"], defs=["MODE=3", "N=8"], max_instr=20000000)
job("P30", "redirects-long", "x_move.c", SC, dict(), None, "redirects to texts of 64 to 4097 bytes and JSON of such values", ["internal", "redirect", "json", "text", "done"], defs=["MODE=3", "LONG=64,128,200,255,256,257,512,1024,1025,1490,1500,4097", "LONGMAX=4100", "OUTMAX=20000", "NOHEAD"], max_instr=20000000)
prop("P28", "every resolved location up to the bound for several exported roots (the file system is a model: resolution, kind and existence are arbitrary), arbitrary names in listings read back by a reference decoder, and paths around PATH_MAX",
     ["changes of the file system between resolution and opening (races with other processes) are outside the claim"])
EX = SC + src("handlers/exportlocal.c")
job("P28", "where", "x_export.c", EX, dict(RN=6), dict(RN=9), "any canonical location of 0..RN bytes after the slash, roots /, /a and a file", ["declined", "file", "listing", "own", "done"], defs=["MODE=1", "OUTMAX=20000"], max_instr=20000000)
job("P28", "names", "x_export.c", EX, dict(NN=2), dict(NN=3), "any name of 1..NN bytes in a listing and in the path", ["listed", "done"], defs=["MODE=2", "OUTMAX=20000"], max_instr=20000000)
job("P28", "many", "x_export.c", EX, dict(MANY=60), dict(MANY=200), "listings of MANY entries, the first or last with a name of up to 255 bytes", ["listed", "done"], defs=["MODE=4", "OUTMAX=120000", "NN=1"], max_instr=50000000)
job("P28", "long", "x_export.c", EX, dict(), None, "paths of 1000 to 4200 bytes, exported file with the longest name", ["long", "done"], defs=["MODE=3", "OUTMAX=20000"], max_instr=20000000)
prop("P29", "every method, path and destination up to the bound with every answer of the permission check and every outcome of the file operations (all stand-ins that record the path they are given); the default permission check with arbitrary resolution of names",
     ["libxml2 is a stand-in giving arbitrary small documents; changes of the file system between check and use are outside the claim"])
for i, m in enumerate(["get", "head", "options", "propfind", "put", "delete", "move", "mkcol", "proppatch", "post"]):
    job("P29", m, "x_dav.c", SC + src("handlers/webdav.c"), dict(PN=2 - (m == "propfind"), DN=2), dict(PN=3 - (m == "propfind"), DN=3), "any path of 0..PN bytes, any destination of 0..DN bytes", ["refused", "granted", "done"] + {"propfind": ["properties"], "proppatch": ["patched"]}.get(m, []), defs=["MODE=1", "METHOD=%d" % i], max_instr=20000000)
job("P29", "default-check", "x_dav.c", SC + src("handlers/webdav.c"), dict(RN=4), dict(RN=6), "any resolution of 0..RN bytes of the file and its directory", ["inside", "outside", "done"], defs=["MODE=2"], max_instr=20000000)
job("P29", "many", "x_dav.c", SC + src("handlers/webdav.c"), dict(MANY=40), dict(MANY=150), "listings of MANY entries, the first or last with a name of up to 255 bytes, in directories of up to 200", ["listed", "done"], defs=["MODE=4", "PN=1"], max_instr=50000000)
job("P29", "long", "x_dav.c", SC + src("handlers/webdav.c"), dict(), None, "paths and destinations of 400 to 1100 bytes", ["long", "done"], defs=["MODE=3", "PN=1"], max_instr=20000000)
WD = SC + src("handlers/webdav.c")
prop("P45", "every set of asked properties for files and directories of several sizes, modes and times, arbitrary bytes in paths and names of entries, every shape of a change of properties with every outcome of the file operations",
     ["libxml2 is a stand-in that keeps the tree that is written and gives the tree of the request"])
job("P45", "properties", "x_davp.c", WD, dict(), None, "all 256 sets of properties, all of them with and without body, files and directories of 8 kinds", ["told", "entries", "missing", "done"], defs=["MODE=1"], max_instr=20000000)
job("P45", "addresses", "x_davp.c", WD, dict(NN=2), dict(NN=3), "any name of up to NN bytes in the path and in the listing", ["told", "entries", "done"], defs=["MODE=2"], max_instr=20000000)
job("P45", "changes", "x_davp.c", WD, dict(), None, "8 shapes of change, any value, 8 kinds of file", ["on", "off", "done"], defs=["MODE=3"], max_instr=20000000)
prop("P31", "every authorization header up to the bound, every result of the authentication service (a stand-in that records name and password), proper credentials with arbitrary bytes, and the session afterwards",
     ["PAM is a stand-in; the secrecy of session identifiers is P21"])
AU = RP + src("sessions.c", "sessions_mem.c", "handlers/auth_pam.c")
job("P31", "any", "x_auth.c", AU, dict(N=9), dict(N=11), "any header of 0..N bytes, or none", ["out", "done"], defs=["MODE=1", 'PRE=""'], max_instr=20000000)
job("P31", "basic", "x_auth.c", AU, dict(N=8), dict(N=12), "'Basic ' followed by any 0..N bytes", ["in", "out", "done"], defs=["MODE=1", 'PRE="Basic "'], max_instr=20000000)
job("P31", "credentials", "x_auth.c", AU, dict(UN=3), dict(UN=6), "any user name and password of 0..UN bytes, then two requests without credentials", ["in", "out", "done"], defs=["MODE=2"], max_instr=20000000)
job("P31", "credentials-long", "x_auth.c", AU, dict(UN=4000), None, "user names and passwords of 1, 64, 300 or 3000 bytes, the last arbitrary", ["in", "out", "done"], defs=["MODE=2", "LONG=1,64,300,3000", "LONGMAX=3000"], max_instr=20000000)
job("P31", "realm", "x_auth.c", AU, dict(N=0), None, "realms of 0 to 390 bytes", ["out", "done"], defs=["MODE=3", 'PRE=""'], max_instr=20000000)
prop("P32", "every history of additions, removals, events, hang ups, interruptions and passing seconds within the bound, against a model of the kernel that checks what the loop waits for; several threads in the loop for all schedules with a bounded number of preemptions at locks",
     ["the kernel (epoll, timerfd, eventfd, shutdown, clock) is a stand-in; descriptors are sockets, registered once at a time; the libev and libevent variants are not built here"])
PL = src("poller.c", "low.c")
job("P32", "history", "e_poll.c", PL, dict(STEPS=3, FDS=2), dict(STEPS=4, FDS=3), "STEPS steps over FDS descriptors, one already registered, timeouts none, 2.5 s and 1 s, 1..4 seconds at a time", ["timeout", "released", "removed", "closes", "goes on", "stopped", "done"], defs=["MODE=0", "PRE=1", "TMOS=2"], max_instr=3000000)
job("P32", "history-two", "e_poll.c", PL, dict(STEPS=3, FDS=3), dict(STEPS=4, FDS=3), "STEPS steps over FDS descriptors, two already registered", ["timeout", "released", "removed", "done"], defs=["MODE=0", "PRE=2", "TMOS=1"], max_instr=3000000)
job("P32", "many", "e_poll.c", PL, dict(STEPS=2, FDS=13), dict(STEPS=2, FDS=30), "STEPS steps over FDS descriptors with numbers from 300 on, twelve already registered", ["released", "removed", "closes", "goes on", "done"], defs=["MODE=0", "PRE=12", "TMOS=0", "FDBASE=300"], max_instr=3000000)
job("P32", "many-timeouts", "e_poll.c", PL, dict(STEPS=2, FDS=3), None, "the same for three descriptors with numbers from 1000 on and timeouts", ["timeout", "released", "removed", "done"], defs=["MODE=0", "PRE=3", "TMOS=1", "FDBASE=1000"], max_instr=3000000)
job("P32", "queue", "e_poll.c", PL, dict(STEPS=2, FDS=2), dict(STEPS=3, FDS=3), "two events taken at once, STEPS steps", ["two", "released", "done"], defs=["MODE=0", "PRE=2", "TMOS=0", "QUEUE=2"], max_instr=3000000)
job("P32", "short", "e_poll.c", PL, dict(STEPS=3, FDS=1), dict(STEPS=5, FDS=1), "one descriptor, timeouts none, 2.5, 1 and 0.5 s, and all event types", ["timeout", "done"], defs=["MODE=0", "PRE=1", "TMOS=3", "TYPES"], max_instr=3000000)
job("P32", "add-fails", "e_poll.c", PL, dict(STEPS=3, FDS=2), dict(STEPS=4, FDS=2), "any registration refused by the kernel", ["add failed", "done"], defs=["MODE=0", "PRE=1", "TMOS=1", "ADDFAIL"], max_instr=3000000)
job("P32", "no-descriptors", "e_poll.c", PL, dict(STEPS=1, FDS=1), None, "no descriptor left for any of the three the loop needs", ["done"], defs=["MODE=0", "PRE=0", "TMOS=0", "FDFAIL"], max_instr=3000000)
job("P32", "empty", "e_poll.c", PL, dict(STEPS=1, FDS=1), None, "removing from an empty loop", ["done"], defs=["MODE=0", "PRE=0", "TMOS=0", "EMPTY"], max_instr=3000000)
job("P32", "threads", "e_poll.c", PL, dict(FDS=2), None, "one thread in the loop, another adding a descriptor and stopping it", ["done"], defs=["MODE=1", "PRE=1", "TMOS=1", "LOOPS=1", "LATE"], max_instr=3000000, preempt=dict(quick=3, thorough=4))
job("P32", "threads-two", "e_poll.c", PL, dict(FDS=2), None, "two threads in the loop and one stopping it", ["done"], defs=["MODE=1", "PRE=2", "TMOS=0", "LOOPS=2"], max_instr=3000000, preempt=dict(quick=2, thorough=3))
prop("P33", "every table text up to the bound (also after and before fixed lines), long types and extensions around the limits, every path up to the bound against a reference reader of the table, histories of updates")
MI = src("mime.c", "dict.c", "block.c", "codecs.c", "low.c")
job("P33", "table", "m_mime.c", MI, dict(N=6, EN=1), dict(N=7, EN=2), "any table of 0..N bytes, any extension of 0..EN bytes", ["unknown", "known", "done"], defs=["MODE=1", 'PRE=""', 'POST=""'])
job("P33", "table-line", "m_mime.c", MI, dict(N=4, EN=1), dict(N=5, EN=2), "a line followed by any 0..N bytes, more extensions and another line", ["unknown", "known", "done"], defs=["MODE=1", 'PRE="t a"', 'POST="b\\nu c\\n"'])
job("P33", "table-long", "m_mime.c", MI, dict(), None, "types of 1 to 300 and extensions of 3 to 63 bytes, and what follows them", ["unknown", "known", "done"], defs=["MODE=2"])
job("P33", "path", "m_mime.c", MI, dict(N=6), dict(N=8), "any path of 0..N bytes", ["unknown", "known", "done"], defs=["MODE=3"])
job("P33", "update", "m_mime.c", MI, dict(N=3), dict(N=4), "all histories of N updates and removals of two extensions, with and without table file", ["updated", "removed", "done"], defs=["MODE=4"])
job("P33", "path-long", "m_mime.c", MI, dict(N=3), dict(N=5), "any path of 0..N bytes before or after a text of 60 to 4097 letters", ["unknown", "known", "done"], defs=["MODE=3", "LONG=60,99,101,128,200,255,256,257,1024,4097", "LONGMAX=0"])
prop("P34", "file names and messages across all limits of the line, with arbitrary last bytes, all levels, lines, dates that do not fit and environments; the buffer is a sized object of the executor")
job("P34", "line", "m_log.c", src("log.c"), dict(ML=3, MS=60), dict(ML=40, MS=6), "file names of 1 to 1000 bytes, messages of up to ML*MS bytes", ["disabled", "whole", "cut", "done"], commondefs=["REAL_LOG"])
job("P34", "line-edge", "m_log.c", src("log.c"), dict(ML=200, MS=1), dict(ML=250, MS=1), "messages of each length up to ML bytes", ["whole", "cut", "done"], defs=["EDGE"], commondefs=["REAL_LOG"])
prop("P35", "all triples of 32 bit numbers, decided by the solver without bound")
job("P35", "triples", "m_version.c", src("version.c"), dict(), None, "all triples", ["compatible", "other"])
prop("P36", "two threads with every choice of operations within the bound and every schedule with a bounded number of preemptions, where threads can change at every lock, comparison and (second job) allocation; locks are modelled with ownership, so deadlocks and misuse are also found",
     ["interleavings inside a single C statement and weak memory are outside the claim"])
TS = src("dict.c", "block.c", "codecs.c", "low.c", "sessions.c", "sessions_mem.c")
job("P36", "dict", "t_share.c", TS, dict(OPS=2), dict(OPS=2), "two threads, OPS operations each", ["kept", "done"], defs=["MODE=1"], preempt=dict(quick=2, thorough=3))
job("P36", "dict-alloc", "t_share.c", TS, dict(OPS=1), dict(OPS=2), "two threads, OPS operations each, switching also at allocations", ["kept", "done"], defs=["MODE=1", "ALLOCS"], preempt=3)
job("P36", "sessions", "t_share.c", TS, dict(OPS=2), dict(OPS=2), "two threads, OPS operations each", ["done"], defs=["MODE=2"], preempt=dict(quick=1, thorough=2))
job("P36", "sessions-alloc", "t_share.c", TS, dict(OPS=1), dict(OPS=2), "two threads, OPS operations each, switching also at allocations", ["done"], defs=["MODE=2", "ALLOCS"], preempt=2)
prop("P37", "every history of set-up calls, listening, connections, requests and faults of the system calls within the bound; threads in the loop and detached listening under all schedules with a bounded number of preemptions",
     ["sockets, addresses and the event loop are stand-ins that record who owns what (the event loop itself is P32); a request is one small one per connection"])
SV = src("onion.c", "listen_point.c", "http.c", "handler.c", "sessions.c", "sessions_mem.c", "mime.c", "url.c") + RS
job("P36", "date", "r_date.c", RP, dict(MODE=2), None, "two threads making responses while the clock goes on", ["done"], preempt=dict(quick=2, thorough=3), max_instr=20000000)
job("P36", "cookies", "r_date.c", RP, dict(MODE=2), None, "the same with a cookie of a limited lifetime each", ["done"], defs=["COOKIES"], preempt=dict(quick=1, thorough=2), max_instr=20000000)
job("P37", "set-up", "n_server.c", SV, dict(OPS=3), dict(OPS=4), "OPS operations out of seven, then release", ["done"], defs=["MODE=1", "NFAULTS=0", "RF=0", "FLAGS=3", "KINDS=6", "EVENTS=0"], max_instr=3000000)
job("P37", "listen", "n_server.c", SV, dict(OPS=2, EVENTS=3), dict(OPS=3, EVENTS=3), "OPS operations with listening, EVENTS events in the loop", ["connection", "request", "stopped", "listened", "done"], defs=["MODE=1", "NFAULTS=0", "RF=0", "FLAGS=0", "KINDS=7"], max_instr=3000000)
job("P37", "listen-one", "n_server.c", SV, dict(OPS=2, EVENTS=3), dict(OPS=3, EVENTS=3), "the same with one request at a time", ["listened", "done"], defs=["MODE=1", "NFAULTS=0", "RF=0", "FLAGS=1", "KINDS=7"], max_instr=3000000)
job("P37", "faults", "n_server.c", SV, dict(OPS=2, NFAULTS=1, EVENTS=2), dict(OPS=2, NFAULTS=2, EVENTS=3), "OPS operations, EVENTS events and up to NFAULTS faults of system calls anywhere", ["not made", "could not listen", "done"], defs=["MODE=1", "RF=0", "FLAGS=0", "KINDS=7"], max_instr=3000000)
job("P37", "transfer-faults", "n_server.c", SV, dict(EVENTS=4), dict(EVENTS=6), "failing reads and writes of connections", ["connection", "request", "done"], defs=["MODE=1", "OPS=1", "NFAULTS=0", "RF=1", "FLAGS=0", "KINDS=7"], max_instr=3000000)
job("P37", "listen-point", "n_server.c", SV, dict(NFAULTS=3), dict(NFAULTS=6), "up to NFAULTS faults of system calls while listening and accepting", ["listens", "accepted", "refused", "error", "done"], defs=["MODE=2"], max_instr=3000000)
job("P37", "yield", "n_server.c", SV, dict(EVENTS=5), dict(EVENTS=6), "EVENTS events: connections, requests whose handler ends or yields, and what the owners do", ["yields", "answered", "released", "stopped", "done"], defs=["MODE=4", "NFAULTS=0"], max_instr=3000000)
job("P37", "threads", "n_server.c", SV, dict(NT=2), dict(NT=3), "0..NT threads, stopped while a handler works, two rounds", ["stopped", "done"], defs=["MODE=3", "FLAGS=O_THREADED", "ROUNDS=2", "TFAIL=1"], max_instr=3000000, preempt=1)
job("P37", "detached", "n_server.c", SV, dict(NT=1), dict(NT=2), "detached listening, stopped while a handler works, two rounds", ["stopped", "no thread", "done"], defs=["MODE=3", "FLAGS=(O_POLL|O_DETACH_LISTEN)", "ROUNDS=2", "TFAIL=1"], max_instr=3000000, preempt=dict(quick=2, thorough=3))
prop("P38", "every result of the TLS library at each call (success, fatal, interrupted, would block, partial sends, closed) within the bound on faults, every division of a request in records within the bound, and the life of sessions, credentials and sockets",
     ["the TLS library is a stand-in that records the state of every session: cryptography is outside the claim; one connection and one request"])
TL = SV + src("https.c")
job("P38", "new", "n_tls.c", TL, dict(FAULTS=1), dict(FAULTS=2), "any call of the TLS library failing while a listen point is made", ["made", "not made"], defs=["MODE=1", "RECS=1", "CUT=1"], max_instr=3000000)
job("P38", "request", "n_tls.c", TL, dict(FAULTS=2, RECS=2, CUT=12), dict(FAULTS=3, RECS=3, CUT=17), "RECS records with cuts at any of the first CUT+1 bytes, up to FAULTS faults of the TLS library", ["connected", "refused", "attended", "answered", "closed", "done"], defs=["MODE=2", "NFAULTS=0"], max_instr=5000000)
job("P38", "system-faults", "n_tls.c", TL, dict(FAULTS=1, NFAULTS=2), dict(FAULTS=2, NFAULTS=3), "faults of the system and of the TLS library", ["connected", "refused", "done"], defs=["MODE=2", "RECS=1", "CUT=1"], max_instr=5000000)
job("P38", "big-record", "n_tls.c", TL, dict(BODY=1700, RECS=2, CUT=60), dict(BODY=4000, RECS=2, CUT=200), "records bigger than the read buffer: body of BODY bytes", ["attended", "answered", "one more", "done"], defs=["MODE=2", "FAULTS=0", "NFAULTS=0"], max_instr=20000000)
job("P38", "file", "n_tls.c", TL, dict(FAULTS=1, RECS=1), dict(FAULTS=2, RECS=2), "a file as response", ["attended", "answered", "done"], defs=["MODE=2", "NFAULTS=0", "CUT=3", "SENDS_FILE"], max_instr=5000000)
job("P38", "certificates", "n_tls.c", TL, dict(), dict(), "every type, encoding and kind of listen point", ["loaded", "refused", "done"], defs=["MODE=3", "RECS=1", "CUT=1"], max_instr=3000000)
job("P38", "websocket", "n_tls.c", TL + src("websocket.c"), dict(FRAMES=2), dict(FRAMES=3), "1..FRAMES frames of 0..3 bytes, any mask and data, in RECS records cut anywhere in CUT bytes", ["together", "waited", "last words", "done"], defs=["MODE=4", "RECS=4", "CUT=8", "FAULTS=0", "NFAULTS=0"], max_instr=5000000)
OT = src("tools/otemplate/otemplate.c", "tools/otemplate/parser.c", "tools/otemplate/tags.c", "tools/otemplate/tag_builtins.c", "tools/otemplate/variables.c", "tools/otemplate/functions.c", "tools/otemplate/list.c", "tools/otemplate/load.c", "tools/common/updateassets.c") + DICT
prop("P39", "every template text up to the bound over the characters of the syntax, every text byte, every structure of conditions, loops and blocks within the bound with every value of their variables, all sequences of tags, long lines; every byte, size around the read buffer and name of packed files; histories of the list of pieces",
     ["the generated C is run by an interpreter of the subset that the tools write (anything else is reported as inconclusive); texts without NUL bytes; plugins (load) are not loaded; include is a call of another template's function"])
OTK = dict(srcdefs=["main=tool_main"], max_instr=30000000)
job("P39", "text", "o_tpl.c", OT, dict(N=2), dict(N=3), "any text of 0..N bytes but '{'", ["done"], defs=["MODE=1", "LINES=0", 'PRE="x"', 'SUF="1"'], **OTK)
job("P39", "syntax", "o_tpl.c", OT, dict(N=5), dict(N=6), "any template of 0..N characters over the syntax and a letter", ["done", "open", "unknown tag"], defs=["MODE=1", "LINES=1", 'PRE=""', 'SUF=""', "ALPHA=" + cs("{}%#a")], **OTK)
job("P39", "variable", "o_tpl.c", OT, dict(N=4), dict(N=5), "any variable of 0..N characters", ["done"], defs=["MODE=1", "LINES=1", 'PRE="{{"', 'SUF="}}b"', "ALPHA=" + cs("}a .\"\n%")], **OTK)
job("P39", "comment", "o_tpl.c", OT, dict(N=4), dict(N=5), "any comment of 0..N characters", ["done"], defs=["MODE=1", "LINES=1", 'PRE="c{#"', 'SUF="#}b"', "ALPHA=" + cs("}#a\n{")], **OTK)
job("P39", "comparison", "o_tpl.c", OT, dict(NODES=2, DEPTH=1, VALS=4), None, "every operator of the conditions with every value of its sides", ["done"], defs=["MODE=2", "LINES=1", "OPS=1"], **OTK)
job("P39", "structure", "o_tpl.c", OT, dict(NODES=2, DEPTH=2, VALS=3), dict(NODES=3, DEPTH=3, VALS=2), "templates of up to NODES pieces, nested DEPTH deep, with every value of their variables", ["done"], defs=["MODE=2", "LINES=1", "OPS=0"], **OTK)
job("P39", "tags", "o_tpl.c", OT, dict(N=3), dict(N=4), "all sequences of up to N of 19 tags and texts", ["accepted", "refused"], defs=["MODE=3"], **OTK)
job("P39", "long", "o_tpl.c", OT, dict(), None, "texts and lines of up to 6000 bytes", ["done"], defs=["MODE=4", "LENS={0,1,508,1020,4060,4070,4080,4090,4096,6000}"], **OTK)
job("P39", "files", "o_tpl.c", OT, dict(), None, "files that can not be opened", ["done", "error"], defs=["MODE=5"], **OTK)
OP = src("tools/opack/opack.c", "tools/common/updateassets.c", "src/onion/codecs.c", "src/onion/low.c")
job("P39", "packed", "o_pack.c", OP, dict(NSYM=2), dict(NSYM=4), "files of any content (NSYM symbolic bytes) and sizes 0..5, and around the read buffer", ["done"], defs=["LENS={0,1,2,3,4,5,16,17}", "ASIZE=64"], **OTK)
job("P39", "packed-long", "o_pack.c", OP, dict(), None, "files of sizes around the read buffer", ["done"], defs=["LENS={4094,4095,4096,8190,8191}", "NSYM=0", "ASIZE=8192", "FSIZE=60000"], **dict(OTK, max_instr=200000000))
job("P39", "packed-directory", "o_pack.c", OP, dict(), None, "directories with any subset of 8 files at three depths, in two orders", ["none", "file"], defs=["DIRS=1", "ASIZE=64", "NFILES=12"], **OTK)
job("P39", "assets", "o_assets.c", src("tools/common/updateassets.c"), dict(N=2), dict(N=3), "headers of up to N lines with and without the mark, and every update of two lines", ["new", "kept"], defs=["PADS=0"], max_instr=30000000)
job("P39", "assets-long", "o_assets.c", src("tools/common/updateassets.c"), dict(N=1), dict(N=2), "headers longer than the read buffer", ["kept"], defs=["PADS=1"], max_instr=30000000)
job("P39", "list", "o_list.c", src("tools/otemplate/list.c"), dict(N=4), dict(N=6), "histories of N operations", ["done"])
# ------------------------------------------------------------------ P40 C++ bindings
prop("P40", "every sequence of wrapper operations up to the bound over shared and separate dictionaries against a reference of who shares what; every value, status, exception and order of destruction of handlers, urls, listen points and servers; every argument passed through the request, response and server wrappers",
     ["number and locale formatting through the response stream", "initializer lists with less than two strings", "use of a borrowed wrapper after its owner is gone"])
CXD = src("dict.c", "low.c", "block.c", "codecs.c")
BCP = lambda *a: ["src/bindings/cpp/" + x for x in a]
job("P40", "dict", "c_dict.cpp", CXD + BCP("dict.cpp"), dict(OPS=3), dict(OPS=4), "sequences of OPS operations over three objects and two keys, values of any byte", ["add", "remove", "map", "copy", "self", "assign", "hard_dup", "delete", "merge", "json", "done"], max_instr=20000000, heavy=1)
job("P40", "dict-inside", "c_sub.cpp", CXD + BCP("dict.cpp"), dict(VN=2), dict(VN=4), "dictionaries inside dictionaries, missing ones, copies that outlive their owner, values of 0..VN bytes", ["missing", "gone", "copy of nothing", "kept", "lock", "done"])
job("P40", "handler", "c_handler.cpp", RP + BCP("handler.cpp", "exceptions.cpp", "dict.cpp"), dict(VN=2), dict(VN=4), "six kinds of handler, every status, eight kinds of exception with texts of 0..VN bytes, 0..2 calls", ["bridge", "status", "http exception", "redirect", "exception", "other exception", "done"])
job("P40", "response", "c_out.cpp", [], dict(OPS=2, VN=2), dict(OPS=3, VN=2), "sequences of OPS calls with texts of 0..VN bytes", ["stream", "put", "cookie", "sync", "done"])
job("P40", "request", "c_in.cpp", CXD + BCP("dict.cpp"), dict(VN=2), dict(VN=4), "every accessor, values, keys and defaults of 0..VN bytes, present and absent", ["empty", "dict", "default", "value", "texts", "done"])
CXL = ["LONG=1,15,16,40,64,100,255,256,300,1024,4097", "VN=1"]
job("P40", "dict-long", "c_dict.cpp", CXD + BCP("dict.cpp"), dict(OPS=2, PADL=300), dict(OPS=3, PADL=5000), "the same with keys of 301 and values of PADL + 1 bytes", ["add", "remove", "map", "delete", "json", "done"], max_instr=20000000)
job("P40", "dict-inside-long", "c_sub.cpp", CXD + BCP("dict.cpp"), dict(), None, "values of 1 to 4097 bytes", ["missing", "gone", "copy of nothing", "kept", "lock", "done"], defs=CXL, max_instr=20000000)
job("P40", "response-long", "c_out.cpp", [], dict(OPS=1), None, "texts of 1, 64, 300 or 4097 bytes", ["stream", "put", "cookie", "sync", "done"], defs=["LONG=1,64,300,4097", "VN=1"], max_instr=20000000)
job("P40", "request-long", "c_in.cpp", CXD + BCP("dict.cpp"), dict(), None, "values, keys and defaults of 1, 64, 300 or 4097 bytes", ["empty", "dict", "default", "value", "texts", "done"], defs=["LONG=1,64,300,4097", "VN=1"], max_instr=20000000)
CXU = src("url.c") + RP + BCP("handler.cpp", "exceptions.cpp", "dict.cpp", "url.cpp")
job("P40", "server", "c_server.cpp", CXU, dict(OPS=2, VN=1), dict(OPS=2, VN=3), "sequences of OPS calls with texts of 0..VN bytes", ["http", "https", "not added", "root", "port", "certificate", "url", "done"])
job("P40", "url", "c_url.cpp", CXU + BCP("extrahandlers.cpp", "shortcuts.cpp"), dict(VN=2), dict(VN=4), "ten kinds of rule in two positions, moved or not, destroyed in both orders", ["moved", "shortcut", "rule", "render", "done"])
job("P40", "server-long", "c_server.cpp", CXU, dict(OPS=1), None, "texts of 1 to 4097 bytes", ["http", "https", "root", "port", "certificate", "url", "done"], defs=CXL, max_instr=20000000)
job("P40", "url-long", "c_url.cpp", CXU + BCP("extrahandlers.cpp", "shortcuts.cpp"), dict(), None, "texts of 1, 64, 300 or 4097 bytes", ["moved", "shortcut", "rule", "render", "done"], defs=["LONG=1,64,300,4097", "VN=1"], max_instr=20000000)
job("P40", "handler-long", "c_handler.cpp", RP + BCP("handler.cpp", "exceptions.cpp", "dict.cpp"), dict(), None, "exception texts of 1, 64, 300 or 4097 bytes", ["bridge", "status", "http exception", "redirect", "exception", "other exception", "done"], defs=["LONG=1,64,300,4097", "VN=1", "OUTMAX=20000"], max_instr=20000000)
job("P40", "mime", "c_mime.cpp", src("mime.c") + CXD + BCP("dict.cpp"), dict(VN=1), dict(VN=3), "types of 0..VN bytes, set once or twice, updated and removed", ["update", "remove", "done"])
job("P21", "generator-tls", "s_random.c", src("random-gnutls.c", "sessions.c", "dict.c", "codecs.c", "block.c", "low.c"), dict(N=3), dict(N=8), "0..N bytes and one identifier, one or two users, the source of randomness failing at any call", ["ended", "done"], defs=["TLS"])
job("P21", "generator", "s_random.c", src("random-default.c", "sessions.c", "dict.c", "codecs.c", "block.c", "low.c"), dict(N=3), dict(N=8), "0..N bytes and one identifier, one or two users, a device that is missing, fails or gives its bytes in any pieces", ["ended", "seeded", "done"])
# ------------------------------------------------------------------ P41 ready-made handlers
prop("P41", "every text, status and path up to the bound through the real request processing, read by a reference client; the status page against itself with a harmless value",
     ["the regular expression engine is a stand-in"])
PG = ON + src("handlers/static.c", "handlers/opack.c", "handlers/internal_status.c")
job("P41", "static", "h_pages.c", PG, dict(N=4), dict(N=6), "any text of 0..N bytes, five codes, GET and HEAD", ["text", "done"], defs=["MODE=1"], max_instr=20000000)
job("P41", "url-static", "h_pages.c", PG, dict(N=2), dict(N=4), "any text of 0..N bytes, five codes, plain and regular rules that match or not", ["text", "next", "done"], defs=["MODE=2"], max_instr=20000000)
job("P41", "packed", "h_pages.c", PG, dict(N=3), dict(N=5), "any data of 0..N bytes, paths of 0..2 characters, with and without length", ["data", "next", "done"], defs=["MODE=3"], max_instr=20000000)
LG = ["LONG=64,128,255,256,299,300,512,1024,1025,1499,1500,1501,2048,4097", "LONGMAX=4100", "OUTMAX=20000", "NOHEAD"]
job("P41", "static-long", "h_pages.c", PG, dict(), None, "texts of 64 to 4097 bytes", ["text", "done"], defs=["MODE=1"] + LG, max_instr=20000000)
job("P41", "url-static-long", "h_pages.c", PG, dict(), None, "texts of 64 to 4097 bytes", ["text", "next", "done"], defs=["MODE=2"] + LG, max_instr=20000000)
job("P41", "packed-long", "h_pages.c", PG, dict(), None, "data of 64 to 4097 bytes", ["data", "next", "done"], defs=["MODE=3"] + LG, max_instr=20000000)
job("P41", "text-answers", "x_move.c", SC, dict(), None, "any text of 0..3 bytes, five codes, extra headers, GET and HEAD", ["internal", "redirect", "json", "text", "done"], defs=["MODE=3", "N=8"], max_instr=20000000)
job("P41", "text-answers-long", "x_move.c", SC, dict(), None, "texts of 64 to 4097 bytes", ["internal", "redirect", "json", "text", "done"], defs=["MODE=3", "LONG=64,128,200,255,256,257,299,301,512,1024,1025,1490,1500,4097", "LONGMAX=4100", "OUTMAX=20000", "NOHEAD"], max_instr=20000000)
job("P41", "status", "h_pages.c", PG, dict(N=3), dict(N=5), "header names and values of 1..N any bytes", ["quoted", "plain", "done"], defs=["MODE=4"], max_instr=20000000)
job("P37", "configuration", "n_config.c", SV, dict(OPS=3, VN=1, NFAULTS=1), dict(OPS=4, VN=2, NFAULTS=1), "OPS set-up calls with texts of 0..VN bytes, secure listen points that can not be made", ["certificate", "refused", "not promoted", "root", "done"], defs=["MODE=1", "HAVE_GNUTLS"], max_instr=3000000)
job("P37", "many-points", "n_config.c", SV, dict(MANY=12), dict(MANY=26), "MANY listen points, one with host and port names of up to 1025 and 255 bytes", ["done"], defs=["MODE=3", "HAVE_GNUTLS", "NFAULTS=0"], max_instr=3000000)
job("P37", "privileges", "n_config.c", SV, dict(NFAULTS=1), dict(NFAULTS=2), "signals, listen points of other kinds and dropping privileges, two rounds, up to NFAULTS faults", ["signal", "listened", "custom", "dropped", "error", "done"], defs=["MODE=2", "HAVE_GNUTLS"], max_instr=3000000)
job("P03", "asked", "p_access.c", RQ, dict(N=3), dict(N=5), "all methods, paths of 0..N letters and slashes, steps along the path, with and without query values", ["query", "done"], defs=["MODE=1"])
job("P03", "language", "p_access.c", RQ, dict(N=4), dict(N=6), "any language header of 0..N characters", ["language", "none"], defs=["MODE=2"])
job("P03", "client", "p_access.c", RQ, dict(), None, "any client address, client names of sizes around the buffer", ["named", "unknown"], defs=["MODE=3"])
job("P25", "life", "w_life.c", WS, dict(FRAMES=1), dict(FRAMES=2), "up to FRAMES frames of 0..2 bytes, callbacks that read, change themselves or their data, and end, all statuses", ["none", "called", "end", "done"])
# ------------------------------------------------------------------ P43 several requests on one connection
prop("P43", "every sequence of requests from a menu of all body kinds, with arbitrary letters, in the packets described, through the real reader, parser, processing and answers; the handler compares all it can ask with what that request sent, a reference client reads the answers")
CV = RP + src("http.c", "listen_point.c", "sessions.c", "sessions_mem.c")
job("P43", "forms", "p_conv.c", CV, dict(MAXREQ=2, BACK=4, FWD=12), dict(MAXREQ=3, BACK=8, FWD=16), "1..MAXREQ requests of 6 kinds with a blank line between them or not; one packet, one per request, byte by byte, cuts from BACK bytes before to FWD after the end of the first", ["all", "file", "done"], defs=["MENU=K_GET,K_FORM,K_MULTI,K_PUT,K_DATA,K_PLAIN"], max_instr=20000000)
job("P43", "connection", "p_conv.c", CV, dict(MAXREQ=2, BACK=1, FWD=2), dict(MAXREQ=3, BACK=2, FWD=4), "the same for requests with cookies, HEAD, HTTP/1.0, closing, bodies in chunks, and requests that end in an error page", ["all", "closed", "lost", "done"], defs=["MENU=K_PLAIN,K_COOKIE,K_HEAD,K_OLD,K_CLOSE,K_CHUNKED,K_LOST"], max_instr=20000000)
job("P03", "processed", "p_conv.c", CV, dict(MAXREQ=2, BACK=0, FWD=1), dict(MAXREQ=3, BACK=2, FWD=2), "the same requests seen from the handler through the real processing", ["all", "done"], defs=["MENU=K_GET,K_PLAIN,K_COOKIE,K_HEAD"], max_instr=20000000)
job("P43", "sessions", "p_conv.c", CV, dict(MAXREQ=2, BACK=0, FWD=1), dict(MAXREQ=3, BACK=1, FWD=2), "the same with sessions", ["all", "session", "done"], defs=["MENU=K_PLAIN,K_COOKIE,K_FORM", "SESS"], max_instr=20000000)
# ------------------------------------------------------------------ P44 images
prop("P44", "every small image, pixel format, request and piece size, encoder failures at every stage and failing connections, with the image libraries replaced by stand-ins that read every row and put out bytes in arbitrary pieces, read by a reference client",
     ["the encoders themselves are libpng and libjpeg; after an error in the middle of an image the client may see a cut image"])
IMS = "{{1,1},{2,2},{0,1},{1,0},{-1,1},{1,-1}}"
for _nm, _jp, _bp, _bl in (("png", 0, "{1,2,3,4,-4,0,5,-5}", "{3,4}"), ("jpeg", 1, "{1,3,2,0}", "{1,3}")):
    _sr = RP + src("extras/%s.c" % _nm)
    job("P44", _nm, "m_img.c", _sr, dict(), None, "images of 0..2 lines and columns, valid and invalid pixel sizes, failures of the encoder at 7 stages, 3 kinds of connection, GET and HEAD", ["sent", "head", "error", "done"], defs=["JPEG=%d" % _jp, "DIMS=" + IMS, "BPPS=" + _bp, "FAULTS=1", "PADS=0", "NETF=0"])
    job("P44", _nm + "-large", "m_img.c", _sr, dict(), None, "images larger than the internal buffers, connections that fail at each of the first writes", ["sent", "write failed", "done"], defs=["JPEG=%d" % _jp, "DIMS={{250,2},{375,4},{20,77}}", "BPPS=" + _bl, "FAULTS=0", "PADS=0", "NETF=1"], max_instr=30000000)
    job("P44", _nm + "-cut", "m_img.c", _sr, dict(), None, "images larger than the internal buffers, failures of the encoder at 7 stages", ["sent", "error", "cut", "done"], defs=["JPEG=%d" % _jp, "DIMS={{600,4}}", "BPPS=" + _bl, "FAULTS=1", "PADS=0", "NETF=0"], max_instr=30000000)
    job("P44", _nm + "-full-buffer", "m_img.c", _sr, dict(), None, "heads that end at the end of the internal buffer", ["sent", "padded", "done"], defs=["JPEG=%d" % _jp, "DIMS={{2,2},{700,2}}", "BPPS=" + _bl, "FAULTS=0", "PADS=1", "NETF=0"], max_instr=30000000)
    job("P44", _nm + "-huge", "m_img.c", _sr, dict(), None, "images of more than 4 GiB", ["huge", "done"], defs=["JPEG=%d" % _jp, "DIMS=" + ("{{65000,30000}}" if _jp else "{{1000000,1500}}"), "BPPS=" + _bl, "FAULTS=0", "PADS=0", "NETF=0"], max_instr=30000000)
# ------------------------------------------------------------------ P42 allocation functions of the user
prop("P42", "every wrapper with every argument and failing allocation; and the histories and inputs of the other properties (one or more jobs of each part of the library) with the allocation functions replaced by ones whose memory the system's functions do not accept, and the other way round",
     ["memory that the TLS, XML, database and PAM libraries manage themselves"])
job("P42", "wrappers", "l_low.c", src("low.c"), dict(), None, "all wrappers, any size, failing or not", ["nothing", "none", "failed", "done"])
for _p, _n, _o in (("P09", "roundtrip", {}), ("P12", "text-nested", {}), ("P13", "tree-repeated", {}), ("P14", "ownership", {}), ("P14", "nested", {}), ("P15", "history", dict(OPS=2)), ("P16", "history", {}), ("P10", "html", {}), ("P08", "quote", dict(N=2)), ("P11", "c-literal", dict(N=2)), ("P11", "json-literal", dict(N=2)),
                   ("P01", "mp-file", {}), ("P01", "form", {}), ("P01", "mp-full-filename", {}), ("P02", "put", {}), ("P05", "put-faults", {}), ("P07", "shape", dict(N=6)), ("P03", "headers", {}), ("P06", "file-two", {}), ("P04", "form", {}), ("P17", "writes-long", {}), ("P19", "headers", {}),
                   ("P21", "identifier", {}), ("P22", "memory", {}), ("P22", "sqlite3-faults", {}), ("P22", "redis-faults", {}), ("P25", "handshake", {}), ("P25", "life", {}), ("P23", "faults", {}), ("P26", "chains", dict()), ("P27", "path-handler", {}), ("P28", "where", {}), ("P28", "names", {}), ("P29", "default-check", {}), ("P29", "propfind", {}), ("P29", "move", {}), ("P30", "range-huge", {}),
                   ("P31", "any", {}), ("P32", "short", {}), ("P33", "table", {}), ("P37", "set-up", {}), ("P37", "faults", {}), ("P37", "configuration", dict(OPS=2)), ("P38", "new", {}), ("P38", "certificates", {}), ("P41", "static", dict(N=2)), ("P41", "packed", dict(N=2))):
    for _j in [x for x in JOBS if x["p"] == _p and x["name"] == _n]:
        _k = dict(_j); _k.update(p="P42", name=_p + "-" + _n, h="alt.c", quick=dict(_j["quick"], **_o), thorough=_j["thorough"] or _j["quick"], reach=["used"], defs=list(_j.get("defs", [])) + ['INNER="%s"' % _j["h"]], bounds="the same as %s/%s, with the allocation functions of the user" % (_p, _n)); JOBS.append(_k)
