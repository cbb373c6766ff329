"""C13-C16: which parallelizers are offered."""
from specs.common import *
from pash_annotations.annotation_generation.AnnotationGeneration import get_parallelizability_info_from_cmd_invocation as par_info
from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
from pash_annotations.annotation_generation.datatypes.parallelizability.Splitter import Splitter, SplitterKindEnum as S
from pash_annotations.annotation_generation.datatypes.parallelizability.MapperSpec import (
    MapperSpec, MapperSpecKindEnum as M, make_mapper_spec_seq, make_mapper_spec_custom, make_mapper_spec_custom_from_string_representation)
from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorKind import AggregatorKindEnum as G
from pash_annotations.annotation_generation.datatypes.parallelizability import AggregatorSpec as AS
from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as PM
from pash_annotations.annotation_generation.datatypes.parallelizability.Parallelizer import Parallelizer, AdditionalInfoSplitterToMapper as I
from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
from pash_annotations.parser.parser import parse

PARGEN = ["annotation_generation.annotation_generators.ParallelizabilityInfoGenerator<Cmd>.generate_info", "annotation_generation.annotation_generators.Generator_Interface.*",
          "annotation_generation.annotation_generators.ParallelizabilityInfoGenerator_Interface.*", "annotation_generation.AnnotationGeneration.get_parallelizability_info_from_cmd_invocation"]

def mapper_view(m):
    """What a mapper part does: command name (None: the original), flag list maker, implemented."""
    return (m.kind, m.spec_mapper_cmd_name, m.is_implemented)

def aggregator_view(a):
    if isinstance(a, AS.AggregatorSpecFuncStringRepresentation):
        return (a.get_kind(), "text", a.cmd_inv_as_str, a.is_implemented)
    if isinstance(a, AS.AggregatorSpecFuncTransformer):
        return (a.get_kind(), "derived", None, a.is_implemented)
    return (a.get_kind(), None, None, a.is_implemented)

def view(p):
    return (p.get_splitter().kind, mapper_view(p.get_mapper_spec()), aggregator_view(p.get_aggregator_spec()), p.info_splitter_mapper, p.get_info_mapper_aggregator())

SEQ = (M.SAME_AS_SEQ, None, True)
CONC = (G.CONCATENATE, None, None, True)
ADJM = (G.ADJ_LINES_MERGE, None, None, False)
ADJS = (G.ADJ_LINES_SEQ, None, None, False)
def both(mapper, aggregator):
    return [(S.CONSEC_CHUNKS, mapper, aggregator, I.NO_ADD_INPUT, 0), (S.ROUND_ROBIN_PLAIN, mapper, aggregator, I.NO_ADD_INPUT, 0)]

def has(inv, names):
    return any(x.get_name() in names for x in inv.flag_option_list)

SORT_STOP = ["-c", "-C", "-u", "-z", "-R", "-s", "-m", "--files0-from", "--random-source"]
SORT_KEEP = ["-b", "-d", "-f", "-g", "-i", "-M", "-h", "-n", "-r", "--sort", "-V", "-k", "-t"]
GREP_STOP = ["-q", "-A", "-B", "-C", "-m", "-L", "-l", "-c", "-n", "-b"]
OFFERS = {"grep": GREP_STOP, "sort": SORT_STOP, "custom_sort": SORT_STOP, "uniq": ["-d", "-D", "--all-repeated", "-c"], "sed": ["-e", "-f"], "cut": ["-z", "-b"],
          "col": [], "custom_tr": [], "xargs": ["-n", "-I", "-P"], "set_diff": [], "alt_bigrams_aux": [], "bigrams_aux": []}

def is_line_script(s):
    return s.startswith("s") or not ("d" in s or "q" in s)

def offered(inv):
    """The expected parallelizers, or None if the command is rejected."""
    cmd = inv.cmd_name
    if cmd == "grep":
        return [] if has(inv, GREP_STOP) else both(SEQ, CONC)
    if cmd in ("sort", "custom_sort"):
        return [] if has(inv, SORT_STOP) else [(S.CONSEC_CHUNKS, SEQ, (G.CUSTOM_2_ARY, "derived", None, True), I.NO_ADD_INPUT, 0)]
    if cmd == "uniq":
        if has(inv, ["-d", "-D", "--all-repeated"]):
            return []
        return both(SEQ, (G.ADJ_LINES_FUNC, "text", "PLACEHOLDER:uniq_merge_count_uniq", False)) if has(inv, ["-c"]) else both(SEQ, ADJS)
    if cmd == "sed":
        if has(inv, ["-e", "-f"]):
            ok = not has(inv, ["-f"]) and all(is_line_script(x.get_arg()) for x in inv.flag_option_list if x.get_name() == "-e")
        elif len(inv.operand_list) == 0:
            return None
        else:
            s = inv.operand_list[0].get_name()
            ok = s.startswith("-") or is_line_script(s)
        return both(SEQ, CONC) if ok else []
    if cmd in ("cut", "col", "custom_tr", "xargs"):
        return both(SEQ, CONC)
    if cmd == "set_diff":
        return [(S.CONSEC_CHUNKS, SEQ, CONC, I.NO_ADD_INPUT, 0)]
    if cmd == "alt_bigrams_aux":
        return [(S.CONSEC_CHUNKS, (M.CUSTOM, "alt_bigrams_aux", True), (G.CUSTOM_2_ARY, "text", "alt_bigram_aux_reduce", True), I.NO_ADD_INPUT, 0)]
    if cmd == "bigrams_aux":
        return [(S.CONSEC_CHUNKS, (M.CUSTOM, "bigram_aux_map", True), (G.CUSTOM_2_ARY, "text", "bigram_aux_reduce", True), I.NO_ADD_INPUT, 2)]
    return None

def par_invocation(d, cmd, interesting):
    """As invocation, with -e and -f of sed as options only."""
    opts = option_names(cmd)
    fs = [x for x in interesting if x not in opts] * 2 + [f for f in flag_names(cmd) if f not in interesting] + ["-x", "-H"]
    os_ = [o for o in interesting if o in opts] * 3 + opts
    def fo(e):
        x = flag_or_option(e, fs, os_, OPERANDS + ["p", "s/d/q/", "2q", "y/d/e/", "$p"], False)
        return x
    fol = d.list("fo", fo)
    ops = d.list("op", lambda e: Operand(e.str("name", OPERANDS + ["p", "s/d/q/", "2q", "1!G", "/d/s/x/y/"])))
    return CommandInvocationInitial(cmd, fol, ops)

@contract("C13", PARGEN, params=sorted(OFFERS))
def offered_exactly(d, cmd):
    inv = par_invocation(d, cmd, OFFERS[cmd])
    if cmd == "sed":
        d.assume(not any(isinstance(x, Flag) and x.get_name() in ("-e", "-f") for x in inv.flag_option_list))
    info = par_info(inv)
    expected = offered(inv)
    if expected is None:
        d.check("rejected", info is None)
    else:
        d.check("answered", info is not None)
        d.check("offered parallelizers", [view(p) for p in info.parallelizer_list] == expected,
                lambda: (inv.flag_option_list, inv.operand_list, [view(p) for p in info.parallelizer_list], expected))
        d.check("commutative", info.is_commutative == (cmd in ("sort", "custom_sort")))
        d.check("no compatibility claimed", info.round_robin_compatible_with_cat == False)

@contract("C13", PARGEN + ["annotation_generation.datatypes.parallelizability.TransformerFlagOptionList.*"], params=["sort", "custom_sort"])
def sort_merge_flags(d, cmd):
    """The merge of sort keeps the ordering flags and adds -m."""
    inv = par_invocation(d, cmd, SORT_KEEP)
    d.assume(not has(inv, SORT_STOP))
    agg = par_info(inv).parallelizer_list[0].get_aggregator_spec()
    fol = d.list("list", lambda e: flag_or_option(e, SORT_KEEP + ["-m", "--debug"], ["-k", "-t", "-S", "-o", "-m"], ["1", "2"]))
    d.check("merge flags", d.same(agg.flag_option_list_transformer.get_flag_option_list_after_transformer_application(fol),
            [x for x in fol if x.get_name() in SORT_KEEP] + ([] if any(d.same(x, Flag("-m")) for x in fol if x.get_name() in SORT_KEEP) else [Flag("-m")])), lambda: fol)

@contract("C13", PARGEN, params=["cat", "head", "tail", "wc", "comm", "diff", "awk", "mv", "rm", "mkfifo", "tee", "seq"])
def nothing_offered(d, cmd):
    inv = invocation(d, cmd, ["-n", "-c"])
    info = par_info(inv)
    d.check("nothing", info is None or info.get_inferred_parallelizer_list() == [], lambda: info)

@contract("C13", PARGEN + ["parser.parser.parse"], prove=False)
def offered_for_command_lines(d):
    """The same from the command line, with every spelling of the flags."""
    cmd = d.choose("cmd", ["grep", "sort", "uniq", "sed", "cut", "tr"])
    long = {"grep": {"-q": ["--quiet", "--silent"], "-A": ["--after-context"], "-B": ["--before-context"], "-C": ["--context"], "-m": ["--max-count"],
                     "-L": ["--files-without-match"], "-l": ["--files-with-matches"], "-c": ["--count"], "-n": ["--line-number"], "-b": ["--byte-offset"],
                     "-i": ["--ignore-case", "-y"], "-v": ["--invert-match"], "-w": ["--word-regexp"], "-o": ["--only-matching"], "-e": ["--regexp"]},
            "sort": {"-u": ["--unique"], "-R": ["--random-sort"], "-s": ["--stable"], "-m": ["--merge"], "-c": ["--check"], "-z": ["--zero-terminated"],
                     "-r": ["--reverse"], "-n": ["--numeric-sort"], "-k": ["--key"], "--random-source": [], "--files0-from": [], "-C": []},
            "uniq": {"-c": ["--count"], "-d": ["--repeated"], "-D": [], "-u": ["--unique"], "-i": ["--ignore-case"]},
            "sed": {"-n": ["--quiet", "--silent"], "-E": ["-r", "--regexp-extended"], "-e": ["--expression"], "-f": ["--file"]},
            "cut": {"-f": ["--fields"], "-d": ["--delimiter"]}, "tr": {"-d": ["--delete"], "-c": ["-C", "--complement"], "-s": ["--squeeze-repeats"]}}[cmd]
    valued = {"grep": ["-A", "-B", "-C", "-m", "-e"], "sort": ["-k", "--random-source", "--files0-from"], "uniq": [], "sed": ["-e", "-f"], "cut": ["-f", "-d"], "tr": []}[cmd]
    def item(e):
        main = e.choose("main", sorted(long))
        v = e.str("v", ["1", "2", "s/a/b/", "d", "p"], free=False)
        spelled = e.choose("spelling", [main] + long[main])
        return ([spelled, v], Option(main, v)) if main in valued else ([spelled], Flag(main))
    items = d.list("items", item)
    ops = d.list("op", lambda e: e.str("o", ["a", "s/x/y/", "1d", "p", "\\n", "\\0x"], free=False))
    inv = parse(d.words_line([cmd] + [w for i in items for w in i[0]] + ops))
    info = par_info(inv)
    meant = CommandInvocationInitial(cmd, [i[1] for i in items], [Operand(o) for o in ops])
    expected = tr_offers(meant) if cmd == "tr" else offered(meant)
    d.check("offered", (info is None) if expected is None else info is not None and [view(p) for p in info.parallelizer_list] == expected,
            lambda: (cmd, items, ops, info, expected))

# ------------------------------------------------------------------ C14
def newline_in_set(inv):
    """Does the decisive set of tr effectively contain a newline?  None if there is no set."""
    if len(inv.operand_list) == 0:
        return None
    s = inv.operand_list[-1].get_name()
    has_escape = ("\\n" in s) or ("\\0" in s)
    if len(inv.operand_list) == 1 and has(inv, ["-c"]):
        return not has_escape
    return has_escape

def tr_offers(inv):
    nl = newline_in_set(inv)
    if has(inv, ["-d"]) or has(inv, ["-s"]):
        if nl is None:
            return None
        if nl and has(inv, ["-d"]):
            return both(SEQ, ADJM)
        if nl:
            return both(SEQ, (G.ADJ_LINES_FUNC, "text", "PLACEHOLDER: remove first line if empty", False))
    return both(SEQ, CONC)

@contract("C14", PARGEN + ["datatypes.BasicDatatypes.Operand.contains_new_line", "datatypes.BasicDatatypes.Operand.contains_null_char"])
def tr_newlines(d):
    fol = d.list("fo", lambda e: Flag(e.str("name", ["-d", "-s", "-c", "-t", "-C"])))
    ops = d.list("op", lambda e: Operand(e.str("set", ["\\n", "a\\n", "\\nb", "\\0", "x\\0y", "a", "\\\\", "n", "0", "\\t\\n", "[:alpha:]", "", "\\", "\\012", "\\N"])))
    inv = CommandInvocationInitial("tr", fol, ops)
    info = par_info(inv)
    expected = tr_offers(inv)
    if expected is None:
        d.check("rejected", info is None)
    else:
        d.check("answered", info is not None)
        d.check("offered", [view(p) for p in info.parallelizer_list] == expected, lambda: (fol, ops, [view(p) for p in info.parallelizer_list], expected))
        d.check("not commutative", info.is_commutative == False)

# ------------------------------------------------------------------ C15
PART = ["annotation_generation.datatypes.parallelizability.Parallelizer.*", "annotation_generation.datatypes.parallelizability.MapperSpec.*",
        "annotation_generation.datatypes.parallelizability.AggregatorSpec.*", "util.return_default_if_none_else_itself"]

def any_transformer(d):
    k = d.choose("transformer", ["none", "same", "add", "remove", "filter", "empty", "custom"])
    if k == "none": return None
    if k == "same": return T.make_transformer_same_as_seq()
    if k == "add": return T.make_transformer_add([Flag("-m")])
    if k == "remove": return T.make_transformer_remove(["-o"])
    if k == "filter": return T.make_transformer_filter(["-o", "-k"])
    if k == "empty": return T.make_transformer_empty()
    return T.make_transformer_custom([Flag("-z")])

def any_mapper(d):
    if d.bool("same"):
        return MapperSpec(M.SAME_AS_SEQ, is_implemented=d.bool("implemented"))
    return MapperSpec(M.CUSTOM, None if d.bool("same_name") else d.str("name", ["map", "x"]), any_transformer(d), d.bool("implemented"))

def any_aggregator(d):
    kind = d.enum("kind", G)
    impl = d.bool("implemented")
    if kind in (G.CONCATENATE, G.ADJ_LINES_MERGE, G.ADJ_LINES_SEQ):
        return AS.AggregatorSpecNonFunc(kind, impl)
    if d.bool("from_text"):
        return AS.AggregatorSpecFuncStringRepresentation(kind, d.str("text", ["merge", "agg -x", "sort -m"]), impl)
    return AS.AggregatorSpecFuncTransformer(kind, any_transformer(d), impl)

ROUND_ROBIN_OK = (G.CONCATENATE, G.ADJ_LINES_MERGE, G.ADJ_LINES_SEQ, G.ADJ_LINES_FUNC)

@contract("C15", PART)
def construction(d):
    kind = d.enum("splitter", S)
    m, a = any_mapper(d), any_aggregator(d)
    info = None if d.bool("no_info") else d.enum("info", I)
    aux = d.int("aux", 0)
    r = d.call(Parallelizer, Splitter(kind), m, a, info, aux)
    if kind == S.ROUND_ROBIN_PLAIN and a.get_kind() not in ROUND_ROBIN_OK:
        d.check("refused", r.raised)
    else:
        d.check("built", not r.raised, lambda: r.exc)
        p = r.value
        d.check("keeps its parts", p.get_splitter().kind == kind and d.is_same_object(p.get_mapper_spec(), m) and d.is_same_object(p.get_aggregator_spec(), a))
        d.check("keeps its numbers", p.get_info_mapper_aggregator() == aux and p.info_splitter_mapper == (I.NO_ADD_INPUT if info is None else info))
        d.check("implemented only if both parts are", p.are_all_parts_implemented() == (m.is_implemented and a.is_implemented))

@contract("C15", PART, params=["indiv_files", "round_robin", "consec_chunks"])
def factories(d, which):
    m = None if d.bool("no_mapper") else any_mapper(d)
    a = None if d.bool("no_aggregator") else any_aggregator(d)
    info = None if d.bool("no_info") else d.enum("info", I)
    aux = d.int("aux", 0)
    make = {"indiv_files": PM.make_parallelizer_indiv_files, "round_robin": PM.make_parallelizer_round_robin, "consec_chunks": PM.make_parallelizer_consec_chunks}[which]
    kind = {"indiv_files": S.INDIV_FILES, "round_robin": S.ROUND_ROBIN_PLAIN, "consec_chunks": S.CONSEC_CHUNKS}[which]
    r = d.call(make, mapper_spec=m, aggregator_spec=a, info_splitter_mapper=info, info_mapper_aggregator=aux)
    if kind == S.ROUND_ROBIN_PLAIN and a is not None and a.get_kind() not in ROUND_ROBIN_OK:
        d.check("refused", r.raised)
    else:
        d.check("built", not r.raised, lambda: r.exc)
        p = r.value
        d.check("splitter", p.get_splitter().kind == kind)
        if m is None:
            d.check("the command itself by default", mapper_view(p.get_mapper_spec()) == SEQ)
        else:
            d.check("keeps the mapper", d.is_same_object(p.get_mapper_spec(), m))
        if a is None:
            d.check("concatenation by default", aggregator_view(p.get_aggregator_spec()) == CONC)
        else:
            d.check("keeps the aggregator", d.is_same_object(p.get_aggregator_spec(), a))
        d.check("numbers", p.get_info_mapper_aggregator() == aux and p.info_splitter_mapper == (I.NO_ADD_INPUT if info is None else info))

@contract("C15", PART)
def factories_without_arguments(d):
    for make, kind in ((PM.make_parallelizer_indiv_files, S.INDIV_FILES), (PM.make_parallelizer_round_robin, S.ROUND_ROBIN_PLAIN), (PM.make_parallelizer_consec_chunks, S.CONSEC_CHUNKS)):
        d.check("defaults", view(make()) == (kind, SEQ, CONC, I.NO_ADD_INPUT, 0))

@contract("C15", PART)
def part_factories(d):
    impl = d.bool("implemented")
    text = d.str("text", ["merge", "agg -x", ""])
    t = any_transformer(d)
    d.check("sequential mapper", mapper_view(make_mapper_spec_seq()) == SEQ)
    d.check("custom mapper", mapper_view(make_mapper_spec_custom(text, t, is_implemented=impl)) == (M.CUSTOM, text, impl))
    if t is None:
        d.check("flags of the command by default", isinstance(make_mapper_spec_custom(text, t, is_implemented=impl).flag_option_list_transformer, T.TransformerFlagOptionListSeq))
    else:
        d.check("keeps the transformer", d.is_same_object(make_mapper_spec_custom(text, t, is_implemented=impl).flag_option_list_transformer, t))
    d.check("concatenation", aggregator_view(AS.make_aggregator_spec_concatenate()) == CONC)
    d.check("merge of adjacent lines", aggregator_view(AS.make_aggregator_spec_adj_lines_merge()) == ADJM)
    d.check("command on adjacent lines", aggregator_view(AS.make_aggregator_spec_adj_lines_seq()) == ADJS)
    for make, kind in ((AS.make_aggregator_spec_adj_lines_func_from_string_representation, G.ADJ_LINES_FUNC),
                       (AS.make_aggregator_spec_custom_2_ary_from_string_representation, G.CUSTOM_2_ARY),
                       (AS.make_aggregator_spec_custom_n_ary_from_string_representation, G.CUSTOM_N_ARY)):
        d.check("aggregator from text", aggregator_view(make(text, impl)) == (kind, "text", text, impl))
    for make, kind in ((AS.make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers, G.ADJ_LINES_FUNC),
                       (AS.make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers, G.CUSTOM_2_ARY),
                       (AS.make_aggregator_spec_custom_n_ary_from_cmd_inv_with_transformers, G.CUSTOM_N_ARY)):
        a = make(t, impl)
        d.check("derived aggregator", aggregator_view(a) == (kind, "derived", None, impl))
        d.check("transformer kept", isinstance(a.flag_option_list_transformer, T.TransformerFlagOptionListSeq) if t is None else d.is_same_object(a.flag_option_list_transformer, t))
    x = AS.AggregatorSpecNonFunc(d.enum("kind", G), impl)
    d.check("kind questions", [x.is_aggregator_spec_concatenate(), x.is_aggregator_spec_adj_lines_merge(), x.is_aggregator_spec_adj_lines_seq(),
                               x.is_aggregator_spec_adj_lines_func(), x.is_aggregator_spec_custom_2_ary(), x.is_aggregator_spec_custom_n_ary()] ==
            [x.get_kind() == k for k in (G.CONCATENATE, G.ADJ_LINES_MERGE, G.ADJ_LINES_SEQ, G.ADJ_LINES_FUNC, G.CUSTOM_2_ARY, G.CUSTOM_N_ARY)])

SAMPLE = lambda: CommandInvocationWithIOVars("cmd", [Flag("-a")], [ArgStringType("x"), 0], None, 1,
                                             {0: AccessKind(K.STREAM_INPUT), 1: AccessKind(K.STREAM_OUTPUT)})

@contract("C15", PART)
def unimplemented_parts(d):
    m, a = any_mapper(d), any_aggregator(d)
    aux = d.int("aux", 0, 3)
    given = d.int("given", 0, 3)
    r = d.call(Parallelizer, Splitter(S.CONSEC_CHUNKS), m, a, None, aux)
    p = r.value
    cmd = SAMPLE()
    got = d.call(p.get_actual_mapper, cmd, 10, 11, [12, 13, 14][:given])
    if given != aux:
        d.check("other number of auxiliary outputs refused", got.raised)
    elif not m.is_implemented:
        d.check("unimplemented mapper gives nothing", not got.raised and got.value is None)
    elif given == 0:
        d.check("implemented mapper gives a command", not got.raised and got.value is not None, lambda: got.exc)
    if not a.is_implemented:
        agg = d.call(p.get_actual_aggregator, cmd, [10, 11], 12)
        d.check("unimplemented aggregator gives nothing", not agg.raised and agg.value is None)

# ------------------------------------------------------------------ C16
INFER = ["annotation_generation.datatypes.ParallelizabilityInfo.*", "annotation_generation.datatypes.parallelizability.Parallelizer.make_parallelizer_round_robin_with_unwrap_from_other"]

def any_parallelizer(d):
    kind = d.enum("splitter", S)
    m, a = any_mapper(d), any_aggregator(d)
    d.assume(kind != S.ROUND_ROBIN_PLAIN or a.get_kind() in ROUND_ROBIN_OK)
    return Parallelizer(Splitter(kind), m, a, d.enum("info", I), d.int("aux", 0, 3))

def unwrapping(p):
    """What the unwrapping variant of p must look like."""
    return (S.ROUND_ROBIN_UNWRAP_FLAG, mapper_view(p.get_mapper_spec()), aggregator_view(p.get_aggregator_spec()), p.info_splitter_mapper, p.get_info_mapper_aggregator())

@contract("C16", INFER)
def inferred(d):
    commutative = d.bool("commutative")
    rr = d.bool("rr")
    stored = d.list("p", any_parallelizer)
    info = ParallelizabilityInfo(list(stored), rr, commutative)
    before = d.snap(stored)
    first = info.get_inferred_parallelizer_list()
    n = len(stored)
    extra = [p for p in stored if commutative and p.get_splitter().kind == S.CONSEC_CHUNKS]
    d.check("stored ones first, in order", len(first) >= n and all(d.same(x, y) for x, y in zip(first[:n], stored)))
    d.check("one variant per consecutive-chunk parallelizer", [view(x) for x in first[n:]] == [unwrapping(p) for p in extra], lambda: [view(x) for x in first])
    d.check("same parts", all(d.same(x.get_mapper_spec(), y.get_mapper_spec()) and d.same(x.get_aggregator_spec(), y.get_aggregator_spec()) for x, y in zip(first[n:], extra)))
    kept = d.snap(first)
    d.check("stored list unchanged", d.same(info.parallelizer_list, before) and d.same(stored, before))
    second = info.get_inferred_parallelizer_list()
    d.check("asking again gives the same", d.same(second, kept))
    l, a, b = info.unpack_info()
    d.check("unpacked", d.same(l, kept) and a == rr and b == commutative)
    d.check("still unchanged", d.same(info.parallelizer_list, before))

@contract("C16", INFER, prove=False, weight=0.3)
def inferred_for_commands(d):
    """For the information generated for real commands, asked for repeatedly."""
    line = d.str("line", ["sort -r a", "custom_sort", "grep a b", "uniq -c", "tr a b", "cut -f 1", "bigrams_aux", "sort -u", "set_diff a"], free=False)
    info = par_info(parse(line))
    before = d.snap(info)
    lists = [d.snap(info.get_inferred_parallelizer_list()) for _ in range(d.int("times", 1, 4))]
    d.check("equal answers", all(d.same(x, lists[0]) for x in lists))
    d.check("stored unchanged", d.same(info, before))
    n = len(before.parallelizer_list)
    d.check("contents", [view(p) for p in lists[0]] == [view(p) for p in before.parallelizer_list] +
            [unwrapping(p) for p in before.parallelizer_list if before.is_commutative and p.get_splitter().kind == S.CONSEC_CHUNKS])
