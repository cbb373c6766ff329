"""C01-C05: the parser and its tables."""
from specs.common import *
from specs.docs import DOCS
from pash_annotations.parser.parser import parse
from pash_annotations.parser.util_parser import get_json_data
from pash_annotations.annotation_generation.AnnotationGeneration import (get_input_output_info_from_cmd_invocation as generate_io,
                                                                         get_parallelizability_info_from_cmd_invocation as generate_par)

PARSE = ["parser.parser.parse", "parser.parser.are_all_individually_flags", "parser.parser.get_set_of_all", "parser.parser.get_set_of_all_options",
         "parser.parser.get_dict_flag_to_primary_repr", "parser.parser.get_dict_option_to_primary_repr", "parser.util_parser.get_json_data"]
NAMES = sorted(TABLES) + ["no_such_table"]

def is_bundle(w, flags):
    return len(w) > 1 and w[0] == "-" and all(("-" + c) in flags for c in w[1:])

def classify(words, flags, options):
    """The reading of C02: (items, number of words read)."""
    items = []
    i = 0
    while i < len(words):
        w = words[i]
        if w in flags:
            items.append(("flag", flags[w]))
        elif w in options and i + 1 < len(words):
            items.append(("option", options[w], words[i + 1]))
            i += 1
        elif is_bundle(w, flags):
            for c in w[1:]:
                items.append(("flag", flags["-" + c]))
        else:
            break
        i += 1
    return items, i

def view_items(fol):
    return [("flag", x.get_name()) if isinstance(x, Flag) else ("option", x.get_name(), x.get_arg()) if isinstance(x, Option) else ("other", x)
            for x in fol]

def words_for(d, cmd):
    flags, options = flag_spellings(cmd), option_spellings(cmd)
    singles = [f[1] for f in flags if len(f) == 2]
    pool = sorted(flags) * 2 + sorted(options) * 2 + ["a", "-", "", "--", "-" + "".join(singles[:3]), "-" + "".join(singles[-2:]), "x y"]
    def word(e):
        if not e.native:
            return e.str("w")              # any word
        if len(singles) > 0 and e.chance("bundle", 0.15):
            return "-" + "".join([e.choose("letter", singles) for _ in range(e.int("letters", 1, 4))])
        if e.chance("hugging", 0.1):
            return e.str("w", [o + v for o in sorted(options) + sorted(flags) for v in ("=x", "1", "-")] + ["a"], free=False)
        return e.str("w", pool)
    return d.list("words", word)

def spells(words, items, flags, options):
    """Do the items spell exactly the words (C01)?  Works from the words alone: every item must come from the word at its place."""
    i = 0
    k = 0
    while k < len(items):
        if i >= len(words):
            return False
        w, it = words[i], items[k]
        if it[0] == "option":
            if not (i + 1 < len(words) and options.get(w) == it[1] and words[i + 1] == it[2]):
                return False
            i += 2
            k += 1
        elif it[0] == "flag" and (w == it[1] or flags.get(w) == it[1]):
            i += 1
            k += 1
        elif it[0] == "flag" and is_bundle(w, flags):
            letters = ["-" + c for c in w[1:]]
            if not (len(items) - k >= len(letters) and all(items[k + j][0] == "flag" and items[k + j][1] in (l, flags[l]) for j, l in enumerate(letters))):
                return False
            i += 1
            k += len(letters)
        else:
            return False
    return i == len(words)

def reading(words, flags, options):
    """The reading of C02 with the words that each part of it stands for: (items, spans, number of words read)."""
    items, spans = [], []
    i = 0
    while i < len(words):
        w = words[i]
        start = i
        if w in flags:
            items.append(("flag", flags[w]))
        elif w in options and i + 1 < len(words):
            items.append(("option", options[w], words[i + 1]))
            i += 1
        elif is_bundle(w, flags):
            for c in w[1:]:
                items.append(("flag", flags["-" + c]))
        else:
            break
        i += 1
        spans.append((start, i))
    return items, spans, i

def tile(spans, n):
    """The spans cover 0 .. n-1 in order, without gaps or overlaps."""
    if len(spans) == 0:
        return n == 0
    return spans[0][0] == 0 and spans[-1][1] == n and all(a[0] < a[1] for a in spans) and all(a[1] == b[0] for a, b in zip(spans, spans[1:]))

@contract("C01", PARSE, params=NAMES)
def every_word_kept(d, cmd):
    words = words_for(d, cmd)
    flags, options = flag_spellings(cmd), option_spellings(cmd)
    inv = parse(d.words_line([cmd] + words))
    items = view_items(inv.flag_option_list)
    ops = [o.get_name() for o in inv.operand_list]
    d.check("name", inv.cmd_name == cmd, lambda: inv.cmd_name)
    d.check("operand kind", all(type(o) is Operand for o in inv.operand_list))
    spelled, spans, n = reading(words, flags, options)
    d.check("operands are the last words verbatim", ops == words[n:], lambda: (words, ops))
    d.check("flags and options spell the words before", items == spelled, lambda: (words, items, ops))
    d.check("every word once and in order", tile(spans, n), lambda: (words, spans))
    if d.native:
        d.check("the words can be told from the result", len(ops) <= len(words) and spells(words[:len(words) - len(ops)], items, flags, options), lambda: (words, items, ops))

@contract("C01", PARSE, prove="the splitting of quoted text is done by shlex, which is trusted")
def quoted_lines(d):
    """Any spelling of the command line: the words are those the shell splits it into."""
    import shlex
    cmd = d.choose("cmd", NAMES)
    pool = sorted(flag_spellings(cmd)) + sorted(option_spellings(cmd)) + ["'a b'", '"x y"', "a\\ b", "''", '""', "\"it's\"", "'\"'", "-n''", "\\-", "'-'x", "$x", "#c", "a'b'c", "\t"]
    line = " ".join([d.choose("cmd_spelling", [cmd, "'" + cmd + "'", '"' + cmd + '"', "  " + cmd])] + d.list("parts", lambda e: e.str("p", pool)))
    split = d.call(shlex.split, line)
    d.assume(not split.raised and len(split.value) > 0)
    words = split.value
    inv = parse(line)
    items, n = classify(words[1:], flag_spellings(words[0]), option_spellings(words[0]))
    d.check("name", inv.cmd_name == words[0])
    d.check("items", view_items(inv.flag_option_list) == items, lambda: (line, items))
    d.check("operands", [o.get_name() for o in inv.operand_list] == words[1 + n:], lambda: line)

@contract("C02", PARSE, params=NAMES)
def classification(d, cmd):
    words = words_for(d, cmd)
    flags, options = flag_spellings(cmd), option_spellings(cmd)
    inv = parse(d.words_line([cmd] + words))
    items, n = classify(words, flags, options)
    d.check("flags and options", view_items(inv.flag_option_list) == items, lambda: (words, items, view_items(inv.flag_option_list)))
    d.check("operands", [o.get_name() for o in inv.operand_list] == words[n:], lambda: (words, n))

WITH_TABLE = [n for n in NAMES if flag_spellings(n) or option_spellings(n)]

def flag_or_option_piece(e, flags, options, synonym):
    """Words for one entry of the table in two spellings, and the item they stand for."""
    if len(options) == 0 or (len(flags) > 0 and e.bool("is_flag")):
        l = e.str("left", sorted(flags), free=False)
        r = synonym(e, l, flags)
        return [l], [r], [("flag", flags[l])]
    l = e.str("left", sorted(options), free=False)
    r = synonym(e, l, options)
    v = e.str("value", OPERANDS)
    return [l, v], [r, v], [("option", options[l], v)]

def another_spelling(e, l, spellings):
    if e.native:
        return e.str("right", [s for s in sorted(spellings) if spellings[s] == spellings[l]], free=False)
    r = e.str("right", sorted(spellings), free=False)
    e.assume(spellings[l] == spellings[r])
    return r

def same_spelling(e, l, spellings):
    return l

def operands_after(d, flags, options):
    if d.bool("no_operand"):
        return []
    first = d.str("operand", ["a", "b c", "-", ""])
    d.assume(first not in flags and first not in options and not is_bundle(first, flags))
    return [first] + d.list("ops", lambda e: e.str("op", ["a", "b c", "-"] + sorted(flags)[:3]))

def bundle_word(e, flags, options):
    singles = [f[1] for f in sorted(flags) if len(f) == 2]
    if e.native:
        w = "-" + "".join([e.choose("letter", singles) for _ in range(e.int("letters", 1, 4))])
    else:
        w = e.str("bundle")
        e.assume(is_bundle(w, flags))
    e.assume(w not in flags and w not in options)
    return w

def piece_at(p, k):
    return [w for x in p for w in x[k]]

@contract("C03", PARSE, params=WITH_TABLE)
def synonyms(d, cmd):
    """Any number of flags and options, each in any two spellings of its entry."""
    flags = flag_spellings(cmd)
    options = {o: p for o, p in option_spellings(cmd).items() if o not in flags}
    pieces = d.list("pieces", lambda e: flag_or_option_piece(e, flags, options, another_spelling))
    left, right, expected = piece_at(pieces, 0), piece_at(pieces, 1), piece_at(pieces, 2)
    ops = operands_after(d, flags, option_spellings(cmd))
    a = parse(d.words_line([cmd] + left + ops))
    b = parse(d.words_line([cmd] + right + ops))
    d.check("main spellings", view_items(a.flag_option_list) == expected, lambda: (left, view_items(a.flag_option_list)))
    d.check("synonyms parse alike", d.same(a, b), lambda: (left, right))
    if d.native:
        d.check("same input-output information", d.same(generate_io(a), generate_io(b)), lambda: (left, right))
        d.check("same parallelizability information", d.same(generate_par(a), generate_par(b)), lambda: (left, right))

@contract("C03", PARSE, params=[n for n in WITH_TABLE if any([len(f) == 2 for f in flag_spellings(n)])])
def bundle_or_flags(d, cmd):
    """A bundle, anywhere between flags and options, and its separate flags."""
    flags = flag_spellings(cmd)
    options = {o: p for o, p in option_spellings(cmd).items() if o not in flags}
    before = d.list("before", lambda e: flag_or_option_piece(e, flags, options, same_spelling))
    w = bundle_word(d, flags, option_spellings(cmd))
    after = d.list("after", lambda e: flag_or_option_piece(e, flags, options, same_spelling))
    ops = operands_after(d, flags, option_spellings(cmd))
    first, last = piece_at(before, 0), piece_at(after, 0) + ops
    a = parse(d.words_line([cmd] + first + [w] + last))
    b = parse(d.words_line([cmd] + first + ["-" + c for c in w[1:]] + last))
    expected = piece_at(before, 2) + [("flag", flags["-" + c]) for c in w[1:]] + piece_at(after, 2)
    d.check("main spellings", view_items(a.flag_option_list) == expected, lambda: (first, w, last))
    d.check("a bundle parses like its flags", d.same(a, b), lambda: (first, w, last))

@contract("C03", PARSE, params=WITH_TABLE)
def first_spellings(d, cmd):
    """Every flag and option in a parsed command carries the first spelling of its entry."""
    words = words_for(d, cmd)
    inv = parse(d.words_line([cmd] + words))
    flags, options = [e[0] for e in table(cmd)["flag"]], [e[0] for e in table(cmd)["option"]]
    d.check("first spelling of a flag", all([x.get_name() in flags for x in inv.flag_option_list if isinstance(x, Flag)]), lambda: view_items(inv.flag_option_list))
    d.check("first spelling of an option", all([x.get_name() in options for x in inv.flag_option_list if isinstance(x, Option)]), lambda: view_items(inv.flag_option_list))

@contract("C03", PARSE, params=WITH_TABLE, prove="several bundles at once: follows from bundle_or_flags by replacing one after the other")
def synonyms_and_bundles(d, cmd):
    flags, options = flag_spellings(cmd), option_spellings(cmd)
    single = {f[1]: flags[f] for f in flags if len(f) == 2}
    entries = [("f", e) for e in table(cmd)["flag"]] + [("o", e[:-1]) for e in table(cmd)["option"] if e[0] not in flags]
    letters = sorted(single)
    def piece(e):
        kind, spellings = e.choose("entry", entries)
        if kind == "o":
            v = e.str("value", OPERANDS)
            return [e.choose("left", spellings), v], [e.choose("right", spellings), v], [("option", spellings[0], v)]
        if len(letters) > 0 and e.bool("bundle"):
            ls = [e.choose("letter", letters) for _ in range(e.int("n", 1, 4))]
            w = "-" + "".join(ls)
            if w in options or (w in flags and len(ls) > 1):
                ls = ls[:1]
                w = "-" + ls[0]
            return [w], ["-" + l for l in ls], [("flag", single[l]) for l in ls]
        return [e.choose("left", spellings)], [e.choose("right", spellings)], [("flag", spellings[0])]
    pieces = d.list("pieces", piece)
    left, right, expected = piece_at(pieces, 0), piece_at(pieces, 1), piece_at(pieces, 2)
    ops = operands_after(d, flags, options)
    a = parse(d.words_line([cmd] + left + ops))
    b = parse(d.words_line([cmd] + right + ops))
    d.check("main spellings", view_items(a.flag_option_list) == expected, lambda: (left, view_items(a.flag_option_list)))
    d.check("synonyms parse alike", d.same(a, b), lambda: (left, right))

@contract("C04", ["parser.util_parser.get_json_data", "annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface.get_dict_option_to_class_for_arg"],
          params=NAMES)
def table_well_formed(d, cmd):
    t = get_json_data(cmd)
    if cmd in TABLES:
        d.check("the table of the command is loaded", d.same(t, TABLES[cmd]))
    else:
        d.check("default table", t["flag"] == [] and t["option"] == [])
    d.check("lists", isinstance(t["flag"], list) and isinstance(t["option"], list))
    d.check("flag entries", all(isinstance(e, list) and len(e) >= 1 and all(isinstance(s, str) for s in e) for e in t["flag"]), lambda: t["flag"])
    d.check("option entries", all(isinstance(e, list) and len(e) >= 2 and all(isinstance(s, str) for s in e[:-1]) for e in t["option"]), lambda: t["option"])
    fl = [s for e in t["flag"] for s in e]
    op = [s for e in t["option"] for s in e[:-1]]
    d.check("spellings", all(len(s) >= 2 and s[0] == "-" and s != "--" for s in fl + op), lambda: fl + op)
    d.check("flags occur once", all(fl.count(s) == 1 for s in fl), lambda: [s for s in fl if fl.count(s) > 1])
    d.check("options occur once", all(op.count(s) == 1 for s in op), lambda: [s for s in op if op.count(s) > 1])
    kinds = [k.name for k in AccessKindEnum]
    d.check("value kinds", all((isinstance(e[-1], str) and e[-1] not in ("FILE", "DIR", "DIRECTORY")) or
                               (isinstance(e[-1], list) and len(e[-1]) == 2 and e[-1][0] in ("FILE", "DIR", "DIRECTORY") and e[-1][1] in kinds)
                               for e in t["option"]), lambda: t["option"])
    if cmd in COMMANDS and cmd not in ("comm", "set_diff", "mv", "uniq", "grep", "sed", "awk"):
        from pash_annotations.annotation_generation.AnnotationGeneration import get_input_output_info_from_cmd_invocation
        info = get_input_output_info_from_cmd_invocation(CommandInvocationInitial(cmd, [], [Operand("a")]))
        d.check("loaded by the annotation", info is not None)

@contract("C05", ["parser.parser.parse"], params=sorted(DOCS))
def documented_arity(d, cmd):
    with_value, without, _ = DOCS[cmd]
    t = table(cmd)
    before = d.list("before", lambda e: e.choose("w", without)) if len(without) > 0 else []
    if len(with_value) > 0 and d.bool("takes_value"):
        s = d.choose("switch", with_value)
        rest = [d.str("value", OPERANDS)] + d.list("rest", lambda e: e.str("w", OPERANDS))
        inv = parse(d.words_line([cmd] + before + [s] + rest))
        n = len(before)
        d.check("value consumed", len(inv.flag_option_list) > n and isinstance(inv.flag_option_list[n], Option) and inv.flag_option_list[n].get_arg() == rest[0],
                lambda: (cmd, s, rest))
    elif len(without) > 0:
        s = d.choose("switch", without)
        rest = d.list("rest", lambda e: e.str("w", ["a", "file", "x y", ""], free=False))
        inv = parse(d.words_line([cmd] + before + [s] + rest))
        d.check("no value", len(inv.flag_option_list) == len(before) + 1 and isinstance(inv.flag_option_list[-1], Flag), lambda: (cmd, s, rest))
        d.check("following words are operands", [o.get_name() for o in inv.operand_list] == rest, lambda: (cmd, s, rest))
