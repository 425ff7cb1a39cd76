"""Which specification instances and which replays decide which property.

A stage: TLC explores `module` with the constants (quick/thorough override them), checks the
invariants and properties of the module and prints every predicted behaviour; the driver
replays all of them with the given kind.
"""


def builder(quick, thorough, after=1):
    return {"module": "Builder", "kind": "builder", "consts": {"MaxOps": 5, "MaxDepth": 3, "AfterErr": after, "Misuse": "TRUE"},
            "invariants": ["AcceptsExactly", "TreeOK", "Emit"], "properties": ["ErrSticky"],
            "quick": quick, "thorough": thorough}


def reader(family, alphabet, modes, quick_ops, thorough_ops, **kw):
    st = {"module": "ReaderMC", "kind": "reader",
          "consts": {"Family": '"%s"' % family, "Alphabet": '"%s"' % alphabet, "Modes": '"%s"' % modes},
          "invariants": ["Nested", "NoDenialWithoutMulti", "NoDangling", "Emit"],
          "properties": ["FatalSticky", "AtMostOne"],
          "quick": {"consts": {"MaxOps": quick_ops}}, "thorough": {"consts": {"MaxOps": thorough_ops}}}
    st.update(kw)
    return st


def reader_sim(family, alphabet, modes, depth, num_q, num_t):
    st = reader(family, alphabet, modes, depth, depth)
    for tier, num in (("quick", num_q), ("thorough", num_t)):
        st[tier]["simulate"] = {"num": num, "depth": depth + 2, "workers": 4}
    return st


def accessor(quick, thorough):
    return {"module": "Accessor", "kind": "accessor", "invariants": ["MarksOK", "PulledOK", "Emit"],
            "properties": ["InOrder"], "quick": quick, "thorough": thorough}


def scalars(family, rounds_q=1, rounds_t=4, len_q=4, len_t=5):
    return {"module": "Scalars", "kind": "scalar", "consts": {"Family": '"%s"' % family},
            "invariants": ["TypesDisjoint", "RangesNested", "Emit"],
            "quick": {"consts": {"MaxLen": len_q}, "rounds": rounds_q},
            "thorough": {"consts": {"MaxLen": len_t}, "rounds": rounds_t}}


STYLE = ["explicit", "props", "tags", "quotes", "multiline", "blocks", "empty", "complexkeys", "widths", "spacing", "markers", "pairs", "gaps", "wide"]
NOISES = ["none", "trail", "blank", "spaces", "comment", "deep", "crlf", "cr"]


def tlaset(names):
    return "{" + ", ".join('"%s"' % n for n in names) + "}"


def style(nodes_q, nodes_t, without=(), noises=NOISES, depth=4, min_nodes=1, sim=None, without_t=None, noises_t=None):
    st = {"module": "Style", "kind": "style", "invariants": ["Balanced", "Indented", "Emit"],
          "consts": {"MaxDepth": depth, "MinNodes": min_nodes}}
    for tier, nodes, wo, ns in (("quick", nodes_q, without, noises),
                                ("thorough", nodes_t, without if without_t is None else without_t, noises_t or noises)):
        st[tier] = {"consts": {"MaxNodes": nodes, "Features": tlaset(f for f in STYLE if f not in wo), "Noises": tlaset(ns)}}
        if sim:
            st[tier]["simulate"] = {"num": sim[tier == "thorough"], "depth": 90, "workers": 8}
    return st


def quoted(quote, items, len_q, len_t, rounds_q=1, rounds_t=4, sim=None):
    st = {"module": "Quoted", "kind": "quoted", "consts": {"Quote": '"%s"' % quote, "Items": tlaset(items)},
          "invariants": ["ContentKept", "OneLine", "SingleBreak", "NoWhiteAtBreaks", "Emit"],
          "quick": {"consts": {"MaxLen": len_q}, "rounds": rounds_q},
          "thorough": {"consts": {"MaxLen": len_t}, "rounds": rounds_t}}
    if sim:
        for i, tier in enumerate(("quick", "thorough")):
            st[tier]["simulate"] = {"num": sim[i], "depth": st[tier]["consts"]["MaxLen"] + 2, "workers": 4}
    return st


def blocks(lines, n_q, n_t, sim=None, rounds_q=1, rounds_t=3):
    st = {"module": "BlockScalar", "kind": "block", "consts": {"Lines": tlaset(lines), "AdjacentSpaced": "FALSE"},
          "invariants": ["ContentKept", "LiteralBreaks", "Stripped", "Emit"],
          "quick": {"consts": {"MaxLines": n_q}, "rounds": rounds_q},
          "thorough": {"consts": {"MaxLines": n_t}, "rounds": rounds_t}}
    if sim:
        for i, tier in enumerate(("quick", "thorough")):
            st[tier]["simulate"] = {"num": sim[i], "depth": st[tier]["consts"]["MaxLines"] + 2, "workers": 4}
    return st


def reader_gen(alphabet, modes, quick, thorough, names=("a",), keys=("k", "l", "<<"), kinds=("int",), fitting=True, marked=False, **kw):
    """Documents built node by node; quick/thorough: (nodes, depth, ops), (min, nodes, depth, ops) or
    (min, nodes, depth, ops, runs of the simulator)."""
    st = {"module": "ReaderGen", "kind": "reader",
          "consts": {"Alphabet": '"%s"' % alphabet, "Modes": '"%s"' % modes, "Names": tlaset(names), "Keys": tlaset(keys),
                     "Kinds": tlaset(kinds), "Fitting": "TRUE" if fitting else "FALSE", "Marked": "TRUE" if marked else "FALSE"},
          "invariants": ["MergeRule", "NoDangling", "Nested", "NoDenialWithoutMulti", "Emit"],
          "properties": ["FatalSticky"]}
    for tier, t in (("quick", quick), ("thorough", thorough)):
        if len(t) == 3:
            st[tier] = {"consts": {"MinNodes": 1, "MaxNodes": t[0], "MaxDepth": t[1], "MaxOps": t[2]}}
        elif len(t) == 4:
            st[tier] = {"consts": {"MinNodes": t[0], "MaxNodes": t[1], "MaxDepth": t[2], "MaxOps": t[3]}}
        else:
            st[tier] = {"consts": {"MinNodes": t[0], "MaxNodes": t[1], "MaxDepth": t[2], "MaxOps": t[3]},
                        "simulate": {"num": t[4], "depth": 2 * t[1] + 2 * t[2] + t[3] + 8, "workers": 4}}
    st.update(kw)
    return st


SCALE_SCALARS = ["word", "words", "lines", "gap", "gaptab", "plainblank", "colons", "hashes", "longanchor", "longtag"]
SCALE_QUOTED = ["dq", "dqesc", "dqhex", "dquni", "dqquote", "dqlines", "dqblank", "dqcont", "dqspaces", "sq", "sqquote", "sqlines", "sqblank"]
SCALE_BLOCKS = ["lit", "litlong", "litblank", "litkeep", "litclip", "litstrip", "litindent", "fold", "foldblank", "foldkeep"]
SCALE_FLOW = ["flowseq", "flowlines", "flowmap", "flowpairs", "flowquoted", "flowdeep", "flowmapdeep", "flowmixdeep"]
SCALE_ALIASES = ["flowaliases", "chain", "anchors", "aliases"]
SCALE_COLLECTIONS = ["blockseq", "blockmap", "blockkeys", "compact", "seqdeep", "mapdeep", "nulls", "tagged", "inseq"]
SCALE_NOISE = ["comments", "blanks", "trailing", "longcomment"]
SCALE = SCALE_SCALARS + SCALE_QUOTED + SCALE_BLOCKS + SCALE_FLOW + SCALE_ALIASES + SCALE_COLLECTIONS + SCALE_NOISE
PLACED = ["root", "blockseq", "blockmap", "flowseq", "flowmap"]
SIZES_Q = "{2, 3, 9, 17, 33, 65, 101, 129, 257, 513, 1025, 4097}"
SIZES_T = "(1..18) \\union {%s, 8193, 20000}" % ", ".join(str(2 ** k + d) for k in range(5, 13) for d in (-1, 0, 1))


def scale(kinds, obs, containers=PLACED, sim=None, breaks=("none",), parts=1, sizes_q=SIZES_Q, sizes_t=SIZES_T):
    """Large constructs; parts of them next to one another."""
    st = {"module": "Scale", "kind": "scale", "invariants": ["SameCopies", "FlowOnly", "OneBroken", "Emit"],
          "consts": {"Kinds": tlaset(kinds), "Containers": tlaset(containers), "MaxParts": parts, "Obs": tlaset(obs),
                     "Breaks": tlaset(breaks)},
          "quick": {"consts": {"Counts": sizes_q}}, "thorough": {"consts": {"Counts": sizes_t}}}
    if sim:
        for i, tier in enumerate(("quick", "thorough")):
            st[tier]["simulate"] = {"num": sim[i], "depth": 2 * parts + 3, "workers": 4}
    return st


LINES = ["text", "more", "tab", "empty", "white", "blank"]
DOUBLE = ["ch", "sp", "tab", "nl", "esc", "equote", "ebs", "esp", "enl", "bad", "trunc"]
SINGLE = ["ch", "sp", "tab", "nl", "qq", "bs"]


PLAN = {
    "C01": {"stages": [
        builder({"consts": {"MaxOps": 6}, "rounds": 3}, {"consts": {"MaxOps": 7}, "rounds": 6}),
        builder({"consts": {"MaxOps": 18, "MaxDepth": 5}, "simulate": {"num": 3000, "depth": 24, "workers": 4}},
                {"consts": {"MaxOps": 40, "MaxDepth": 8}, "simulate": {"num": 40000, "depth": 46, "workers": 4}}, after=4),
    ]},
    "C02": {"stages": [
        reader("flat", "typed", "both", 3, 3),
        reader("mixed", "walk", "both", 4, 6),
        reader("deep", "walk", "default", 6, 8),
        reader_sim("structural", "full", "both", 14, 3000, 200000),
        reader_gen("full", "both", (5, 14, 5, 14, 1500), (5, 24, 8, 30, 60000), names=("a", "b"), keys=("k", "l", "m", "<<"), kinds=("int", "str", "null")),
    ]},
    "C03": {"stages": [
        reader("flat", "errors", "both", 4, 5),
        reader("mixed", "errors", "both", 4, 5),
        reader_sim("structural", "errors", "both", 14, 3000, 200000),
        reader_sim("flat", "denials", "collecting", 90, 150, 4000),
        reader_sim("mixed", "denials", "collecting", 40, 150, 8000),
        reader_gen("full", "both", (3, 10, 4, 12, 1500), (3, 16, 5, 20, 60000), names=("a", "b"), keys=("k", "l", "m", "<<"), kinds=("int", "str", "null"), fitting=False),
    ]},
    "C04": {"stages": [
        scalars("words", 8, 40), scalars("bounds", 4, 20), scalars("floats", 2, 10),
        scalars("dates", 1, 6), scalars("times", 1, 6), scalars("grow"),
    ]},
    "C07": {"stages": [
        reader("alias", "whole", "both", 4, 6),
        reader("cycle", "whole", "both", 4, 6),
        reader_sim("alias", "full", "both", 14, 3000, 200000),
        reader_gen("any", "default", (4, 3, 1), (5, 4, 1), keys=("k",), names=("a", "b")),
        reader_gen("whole", "default", (3, 3, 4), (4, 3, 5), keys=("k",)),
        reader_gen("values", "default", (7, 7, 2, 8), (6, 8, 3, 9), keys=(), names=("a", "b"), marked=True),
        reader_gen("full", "both", (6, 16, 5, 14, 1500), (6, 30, 8, 30, 60000), names=("a", "b"), keys=("k", "l", "m", "<<"), kinds=("int", "str", "null")),
    ]},
    "C08": {"stages": [
        reader("merge", "any", "both", 1, 2),
        reader_gen("any", "default", (4, 3, 1), (5, 3, 1)),
        reader_gen("any", "default", (6, 18, 4, 1, 4000), (6, 30, 5, 1, 100000), names=("a", "b"), keys=("k", "l", "m", "<<"), kinds=("int", "str", "null")),
        reader_gen("whole", "default", (6, 18, 4, 10, 1000), (6, 30, 5, 16, 40000), names=("a", "b"), keys=("k", "l", "m", "<<"), kinds=("int", "str", "null")),
    ]},
    "C09": {"stages": [
        style(3, 3, without=("widths", "tags", "markers", "wide", "gaps"), noises=["none"], without_t=("wide", "gaps")),
        style(2, 3, without=("wide", "gaps"), without_t=("tags", "widths", "markers", "wide", "gaps")),
        style(4, 4, without=("tags", "markers", "props", "multiline", "blocks", "spacing", "complexkeys", "quotes", "empty", "gaps"),
              noises=["none"], without_t=("tags", "markers", "props", "multiline", "blocks", "quotes", "empty", "complexkeys")),
        style(16, 22, min_nodes=8, depth=6, sim=(450, 20000)),
    ]},
    "C11": {"stages": [
        quoted("double", DOUBLE, 4, 5, rounds_q=2),
        quoted("single", SINGLE, 5, 7),
        quoted("double", DOUBLE[:9], 16, 24, sim=(1500, 40000)),
    ]},
    "C12": {"stages": [
        accessor({"consts": {"MaxOps": 8}}, {"consts": {"MaxOps": 10}}),
        accessor({"consts": {"MaxOps": 60}, "simulate": {"num": 4000, "depth": 64, "workers": 4}},
                 {"consts": {"MaxOps": 150}, "simulate": {"num": 100000, "depth": 154, "workers": 4}}),
    ]},
    "C16": {"stages": [
        reader("structural", "raw", "default", 4, 6),
        reader("merge", "raw", "default", 2, 3),
        reader_gen("raw", "default", (4, 3, 1), (5, 4, 1), keys=("k",), names=("a", "b")),
        reader_gen("items", "default", (7, 7, 2, 8), (6, 8, 3, 9), keys=(), names=("a", "b"), marked=True),
        reader_gen("items", "default", (8, 14, 4, 12, 3000), (8, 20, 5, 16, 60000), keys=("k",), names=("a", "b", "c"), marked=True),
        reader_gen("whole", "default", (5, 16, 5, 12, 1500), (6, 30, 8, 24, 60000), names=("a", "b"), keys=("k", "l", "m", "<<"), kinds=("int", "str", "null")),
    ]},
}

PLAN["C20"] = {"stages": [
    blocks(LINES, 4, 6),
    blocks(LINES, 14, 25, sim=(600, 20000)),
]}

PLAN["C21"] = {"stages": [
    {"module": "Stream", "kind": "stream", "invariants": ["EachOnce", "AsManyAsStarts", "Emit"],
     "quick": {"consts": {"MaxParts": 6}, "rounds": 2}, "thorough": {"consts": {"MaxParts": 8}, "rounds": 3}},
    {"module": "Stream", "kind": "stream", "invariants": ["EachOnce", "AsManyAsStarts", "Emit"],
     "quick": {"consts": {"MaxParts": 24}, "simulate": {"num": 1500, "depth": 26, "workers": 4}},
     "thorough": {"consts": {"MaxParts": 40}, "simulate": {"num": 40000, "depth": 42, "workers": 4}}},
]}

FLOW = ["[", "]", "{", "}", ",", ":", "q", "s", "u"]
PLAN["C13"] = {"stages": [
    {"module": "Flow", "kind": "flow", "invariants": ["AcceptedBalanced", "Emit"], "properties": ["Final"],
     "consts": {"Tokens": tlaset(FLOW + ["d"]), "BadFrom": 1},
     "quick": {"consts": {"MaxLen": 4}, "rounds": 8}, "thorough": {"consts": {"MaxLen": 6}, "rounds": 4}},
    {"module": "Flow", "kind": "flow", "invariants": ["AcceptedBalanced", "Emit"], "properties": ["Final"],
     "consts": {"Tokens": tlaset(FLOW), "BadFrom": 1},
     "quick": {"consts": {"MaxLen": 6}}, "thorough": {"consts": {"MaxLen": 8}}},
    {"module": "Flow", "kind": "flow", "invariants": ["AcceptedBalanced", "Emit"],
     "consts": {"Tokens": tlaset(FLOW)},
     "quick": {"consts": {"MaxLen": 20, "BadFrom": 12}, "simulate": {"num": 3000, "depth": 22, "workers": 4}},
     "thorough": {"consts": {"MaxLen": 40, "BadFrom": 30}, "simulate": {"num": 60000, "depth": 42, "workers": 4}}},
]}

LINE_KINDS = ["key", "open", "dash", "dopen", "dkey", "dkopen", "ddash", "text", "kk", "kd"]
PLAN["C13"]["stages"] += [
    {"module": "Block", "kind": "lines", "invariants": ["Nested", "NothingLost", "Emit"],
     "consts": {"Kinds": tlaset(LINE_KINDS), "BadFrom": 1, "Indents": "{0,1,2,3,4}"},
     "quick": {"consts": {"MaxLines": 4}}, "thorough": {"consts": {"MaxLines": 5}, "rounds": 2}},
    {"module": "Block", "kind": "lines", "invariants": ["Nested", "NothingLost", "Emit"],
     "consts": {"Kinds": tlaset(LINE_KINDS), "Indents": "{0,1,2,3,4,5,6}"},
     "quick": {"consts": {"MaxLines": 16, "BadFrom": 9}, "simulate": {"num": 2000, "depth": 18, "workers": 4}},
     "thorough": {"consts": {"MaxLines": 40, "BadFrom": 20}, "simulate": {"num": 60000, "depth": 42, "workers": 4}}},
]

CHARS = ["ch", "digit", "dot", "wide", "sp", "tab", "lf", "cr", "ctrl", "nel", "bom", "colon", "dash", "q", "hash", "sq", "dq",
         "bs", "comma", "open", "close", "prop", "blk", "res", "math", "e", "word"]
PLACES = ["root", "item", "value", "key", "keyofmap", "deep"]


def strings(q, t):
    return {"module": "Strings", "kind": "strings", "invariants": ["RoundTrip", "Encodable", "Closed", "Emit"],
            "consts": {"Chars": tlaset(CHARS), "Places": tlaset(PLACES)}, "quick": q, "thorough": t}


PLAN["C05"] = {"stages": [
    strings({"consts": {"MinLen": 0, "MaxLen": 3}}, {"consts": {"MinLen": 0, "MaxLen": 4}}),
    strings({"consts": {"MinLen": 0, "MaxLen": 1}, "rounds": 40}, {"consts": {"MinLen": 0, "MaxLen": 2}, "rounds": 40}),
    strings({"consts": {"MinLen": 5, "MaxLen": 24}, "simulate": {"num": 3000, "depth": 28, "workers": 4}},
            {"consts": {"MinLen": 5, "MaxLen": 40}, "simulate": {"num": 100000, "depth": 44, "workers": 4}}),
    builder({"consts": {"MaxOps": 40, "MaxDepth": 8, "Misuse": "FALSE"}, "simulate": {"num": 4000, "depth": 44, "workers": 4}},
            {"consts": {"MaxOps": 80, "MaxDepth": 12, "Misuse": "FALSE"}, "simulate": {"num": 60000, "depth": 84, "workers": 4}}),
]}

FRAGMENTS = ["a", "sp", "lf", "tab", "colon", "dash", "q", "[", "]", "{", "}", "comma", "hash", "amp", "star", "bang", "pipe", "gt",
             "sq", "dq", "pct", "at", "bs", "cr", "doc", "end", "bad", "nul", "uni", "bom", "merge", "1", "null", "yaml", "tagdir",
             "crlf", "key", "item", "anchor", "alias", "tag", "lit", "fold", "ind", "in2", "cmt", "vtag", "esc", "trunc", "nel"]
STRUCTURAL = ["[", "{", "]", "}", "comma", "key", "item", "q", "sp", "in2", "lf", "a", "anchor", "alias", "tag", "lit", "colon"]


def texts(frags, q, t, **kw):
    st = {"module": "Text", "kind": "text", "invariants": ["Same", "Emit"], "consts": {"Fragments": tlaset(frags), "Calls": 2},
          "quick": q, "thorough": t}
    st.update(kw)
    return st


PLAN["C10"] = {"stages": [
    texts(FRAGMENTS, {"consts": {"MinLen": 0, "MaxLen": 2}}, {"consts": {"MinLen": 0, "MaxLen": 2}}, properties=["Unmodified", "Answered"]),
    texts(FRAGMENTS, {"consts": {"MinLen": 3, "MaxLen": 3}}, {"consts": {"MinLen": 3, "MaxLen": 3}, "rounds": 8}),
    texts(FRAGMENTS, {"consts": {"MinLen": 8, "MaxLen": 60}, "simulate": {"num": 2000, "depth": 70, "workers": 4}},
          {"consts": {"MinLen": 10, "MaxLen": 120}, "simulate": {"num": 100000, "depth": 130, "workers": 4}}),
    texts(STRUCTURAL, {"consts": {"MinLen": 30, "MaxLen": 100}, "simulate": {"num": 2000, "depth": 110, "workers": 4}},
          {"consts": {"MinLen": 60, "MaxLen": 300}, "simulate": {"num": 50000, "depth": 310, "workers": 4}}),
]}

PLAN["C06"] = {"stages": [
    dict(style(3, 3, without=("widths", "markers", "wide", "gaps", "explicit"), noises=["none"], without_t=("wide", "gaps")), kind="agree"),
    dict(style(14, 20, min_nodes=6, depth=6, sim=(300, 12000)), kind="agree"),
    dict(scalars("words", 1, 1), kind="agreeword"),
    dict(scalars("bounds", 1, 1), kind="agreeword"),
    dict(scalars("grow", 1, 1), kind="agreeword"),
]}


def isolation(kind, q, t, **kw):
    st = {"module": "Isolation", "kind": kind, "invariants": ["Isolated", "OneOwner", "Emit"], "properties": ["Kept"],
          "consts": {"Buffers": 1, "Atomic": "TRUE"}, "quick": q, "thorough": t}
    st.update(kw)
    return st


PLAN["C17"] = {"stages": [
    # operations of several goroutines, the steps inside of them interleaved as well
    isolation(None, {"consts": {"Procs": 3, "Ops": 2, "Buffers": 2, "Atomic": "FALSE"}},
              {"consts": {"Procs": 4, "Ops": 2, "Buffers": 3, "Atomic": "FALSE"}}),
    isolation("isolation", {"consts": {"Procs": 3, "Ops": 4}}, {"consts": {"Procs": 3, "Ops": 4}, "rounds": 12}),
    isolation("isolation", {"consts": {"Procs": 4, "Ops": 2}, "rounds": 3}, {"consts": {"Procs": 4, "Ops": 2}, "rounds": 60}),
    isolation("parallel", {"consts": {"Procs": 2, "Ops": 4}, "rounds": 40}, {"consts": {"Procs": 2, "Ops": 4}, "rounds": 600}, race=True),
    isolation("parallel", {"consts": {"Procs": 3, "Ops": 3}, "rounds": 2}, {"consts": {"Procs": 3, "Ops": 3}, "rounds": 20}),
]}


def gen(family, mode, q=None, t=None, fields=1, entries=1, depth=3, sim=None):
    """types of a family: exhaustive, or sampled (sim: types per tier)"""
    st = {"invariants": ["RoundTrip", "Emit"] if mode == "encode" else ["Kept", "AnyOrder", "Emit"],
          "consts": {"Family": '"%s"' % family, "Mode": '"%s"' % mode, "MaxFields": fields, "MaxEntries": entries, "Depth": depth, "Rounds": 1}}
    if sim:
        for tier, num in zip(("quick", "thorough"), sim):
            st[tier] = {"consts": {"Rounds": 20}, "simulate": {"num": num, "depth": 260, "workers": 4}}
    else:
        st["quick"], st["thorough"] = q or {}, t or {}
    return st


def generated(mode):
    return {"custom": "generated", "thorough": {"rounds": 6}, "quick": {"rounds": 1}, "models": [
        gen("leaves", mode, t={"consts": {"Depth": 4}}), gen("structs", mode), gen("self", mode, t={"consts": {"Depth": 5}}),
        gen("roots", mode), gen("small", mode, fields=4, entries=6, sim=(20, 400)), gen("inline", mode, fields=3, entries=6, sim=(40, 600)),
        gen("mixed", mode, fields=3, entries=5, sim=(30, 500)), gen("names", mode, fields=3, entries=5, sim=(25, 300)), gen("wide", mode),
        gen("iface", mode)]
        + ([gen("any", mode)] if mode == "decode" else [])}


PLAN["C14"] = {"stages": [generated("decode")]}
PLAN["C15"] = {"stages": [generated("encode")]}



def tool(q, t, invariants=("Repeatable", "Emit"), custom="tool", faults="TRUE", dirs=("cwd",), **kw):
    st = {"module": "Tool", "kind": None, "invariants": list(invariants), "properties": ["StaysCompilable", "Determined", "Preserved"],
          "consts": {"Opts": tlaset(["none", "all"]), "Tags": tlaset(["", "foo"]), "Outs": tlaset(["default", "x_gen.go"]), "Dirs": tlaset(dirs),
                     "Faults": faults, "Crashes": faults}, "quick": q, "thorough": t}
    if custom:
        st["custom"] = custom
    st.update(kw)
    return st


DIRS = ["cwd", "arg", "abs", "env", "long"]
PLAN["C18"] = {"stages": [
    # all histories of invocations, on the model
    tool({"consts": {"MaxSteps": 3, "Tags": tlaset([""])}}, {"consts": {"MaxSteps": 3}}, invariants=["Repeatable"], custom=None),
    # all histories of two invocations, and some longer ones, with the real tool
    tool({"consts": {"MaxSteps": 2}, "sample": 120}, {"consts": {"MaxSteps": 2}}),
    tool({"consts": {"MaxSteps": 8}, "sample": 240, "simulate": {"num": 40, "depth": 10, "workers": 4}},
         {"consts": {"MaxSteps": 12}, "sample": 4000, "simulate": {"num": 600, "depth": 14, "workers": 4}}, dirs=DIRS, first=False),
    # code for all kinds of types
    {"custom": "generated", "replay": False, "models": [
        gen("leaves", "encode"), gen("structs", "encode"), gen("self", "encode"), gen("roots", "encode"), gen("any", "decode"),
        gen("small", "encode", fields=4, sim=(10, 200)), gen("inline", "encode", fields=3, sim=(40, 600)), gen("mixed", "encode", fields=3, sim=(30, 500)),
        gen("names", "encode", fields=3, sim=(25, 300)), gen("wide", "encode"), gen("iface", "decode")]},
]}

def together(obs, q, t, kinds=SCALE, parts=3, breaks=("none",)):
    small = "{1, 2, 3, 5, 8, 13, 16, 21, 34, 63, 64, 65, 100, 128, 200, 256, 300}"
    return scale(kinds, obs, ["blockseq", "blockmap", "flowseq", "flowmap"], sim=(q, t), parts=parts, breaks=breaks, sizes_q=small, sizes_t=small)


PLAN["C01"]["stages"] += [
    scale(["words", "dqesc", "blockseq", "blockmap", "inseq", "nulls", "seqdeep", "mapdeep", "flowmixdeep"], ["roundtrip"], ["root", "blockseq"],
          sizes_q="{17, 65, 129, 257, 1025}"),
]
PLAN["C02"]["stages"] += [
    scale(SCALE_COLLECTIONS + SCALE_FLOW + SCALE_ALIASES, ["walk", "skip"], ["root", "blockmap", "flowseq"]),
    together(["walk", "skip"], 1500, 40000),
]
PLAN["C05"]["stages"] += [
    scale(["words", "plainblank", "dq", "dqesc", "dqquote", "dqspaces", "sqquote", "lit", "litkeep", "hashes", "colons", "blockseq", "blockmap",
           "flowpairs", "inseq", "nulls", "seqdeep", "mapdeep", "flowmixdeep", "chain"], ["roundtrip"], ["root", "blockmap", "blockseq"]),
    together(["roundtrip"], 1200, 30000),
]
PLAN["C06"]["stages"] += [together(["any", "walk"], 1500, 40000)]
PLAN["C07"]["stages"] += [
    scale(SCALE_ALIASES + ["longanchor"], ["any", "walk", "skip", "raw"]),
    together(["any", "walk", "raw"], 800, 20000, kinds=SCALE_ALIASES + ["longanchor"], parts=4),
]
PLAN["C08"]["stages"] += [scale(["merge"], ["any"], ["root", "blockseq", "blockmap"])]
PLAN["C09"]["stages"] += [
    scale(SCALE, ["walk"], ["root", "blockmap", "flowseq"]),
    together(["walk"], 2000, 60000),
]
PLAN["C11"]["stages"] += [
    scale(SCALE_QUOTED, ["walk", "any"]),
    together(["walk", "any"], 1000, 30000, kinds=SCALE_QUOTED, parts=4),
]
PLAN["C13"]["stages"] += [
    scale(SCALE_QUOTED + SCALE_FLOW + SCALE_ALIASES, ["any"], breaks=("unclosed", "extra")),
    together(["any"], 2500, 60000, breaks=("none", "unclosed", "extra")),
]
PLAN["C16"]["stages"] += [
    scale(SCALE, ["raw"], ["root", "blockmap", "flowseq"], sizes_q="{2, 9, 17, 65, 129, 513, 1025}"),
    together(["raw"], 1500, 40000),
]
PLAN["C20"]["stages"] += [
    scale(SCALE_BLOCKS, ["walk", "any"], ["root", "blockseq", "blockmap"]),
    together(["walk", "any"], 1000, 30000, kinds=SCALE_BLOCKS, parts=4),
]



def props(what, len_q, len_t, only="all", rounds=2):
    return {"module": "Props", "kind": "props", "invariants": ["Sound", "Emit"], "properties": ["ForGood"],
            "consts": {"What": '"%s"' % what, "Only": '"%s"' % only},
            "quick": {"consts": {"MaxLen": len_q}, "rounds": rounds}, "thorough": {"consts": {"MaxLen": len_t}, "rounds": 2 * rounds}}


PLAN["C13"]["stages"] += [props("tag", 4, 5), props("anchor", 4, 5), props("version", 7, 9), props("prefix", 6, 7)]
PLAN["C09"]["stages"] += [props("tag", 4, 6, "accepted"), props("anchor", 3, 5, "accepted")]
PLAN["C21"]["stages"] += [props("version", 7, 9, "accepted"), props("prefix", 6, 7, "accepted")]



def presented(via, stream=True, noises=("none",)):
    """Documents in all their presentations, observed after another step."""
    flow = dict(PLAN["C13"]["stages"][1], quick={"consts": {"MaxLen": 5}}, thorough={"consts": {"MaxLen": 7}})
    stages = [
        style(2, 3, without=("wide", "gaps"), noises=noises, without_t=("tags", "widths", "markers", "wide", "gaps")),
        style(14, 22, min_nodes=6, depth=6, sim=(120, 10000)),
        blocks(LINES, 3, 5), blocks(LINES, 10, 20, sim=(200, 8000)),
        quoted("double", DOUBLE, 3, 4), quoted("single", SINGLE, 4, 6), flow,
        {"module": "Block", "kind": "lines", "invariants": ["Nested", "NothingLost", "Emit"],
         "consts": {"Kinds": tlaset(LINE_KINDS), "BadFrom": 1},
         "quick": {"consts": {"MaxLines": 3, "Indents": "{0,2,3}"}}, "thorough": {"consts": {"MaxLines": 4, "Indents": "{0,1,2,3,4}"}}},
        props("tag", 3, 4, "accepted", 1), props("anchor", 3, 4, "accepted", 1),
    ]
    if stream:
        stages.append(dict(PLAN["C21"]["stages"][0], quick={"consts": {"MaxParts": 5}}, thorough={"consts": {"MaxParts": 7}}))
    for st in stages:
        st["kind"] += ":" + via
    return stages


PLAN["C22"] = {"stages": presented("rewrite", noises=("none", "comment", "crlf"))}
PLAN["C16"]["stages"] += presented("raw")
PLAN["C01"]["stages"] += presented("insert", stream=False)
PLAN["C02"]["stages"] += presented("mixed", stream=False)

LEVEL_NOTES = {}
