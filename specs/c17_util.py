"""C17, C24, C26-C29: transformers, equality, access kinds, listings, helpers, rendering."""
from specs.common import *
from specs.c13_par import any_mapper, any_aggregator, any_parallelizer, any_transformer
from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
from pash_annotations.annotation_generation.datatypes.parallelizability.Splitter import Splitter, SplitterKindEnum
from pash_annotations.annotation_generation.datatypes.parallelizability.AggregatorKind import AggregatorKindEnum
from pash_annotations.annotation_generation.datatypes.parallelizability.Mapper import Mapper
from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregator import Aggregator
from pash_annotations.datatypes import AccessKind as AK
from pash_annotations.datatypes import BasicDatatypes as BD
from pash_annotations.datatypes.BasicDatatypesWithIO import make_stdin_with_access_stream_input, make_stdout_with_access_output
from pash_annotations.datatypes.CommandInvocationPrefix import CommandInvocationPrefix
from pash_annotations import util as U
from pash_annotations.util_flag_option import make_arg_simple

NAMES = ["-a", "-m", "-o", "-k"]

def entry(e):
    """An entry of a flag/option list of a command with numbered streams."""
    k = e.choose("kind", ["flag", "string", "stream"])
    if k == "flag":
        return Flag(e.str("name", NAMES))
    if k == "string":
        return OptionWithIOVar(e.str("name", NAMES), ArgStringType(e.str("text", ["x", "1"])))
    return OptionWithIOVar(e.str("name", NAMES), e.int("id", 0))

# ------------------------------------------------------------------ C17
TRF = ["annotation_generation.datatypes.parallelizability.TransformerFlagOptionList.*", "util.foldl"]

def listed(d, x, l):
    return any(d.same(x, y) for y in l)

def transform(d, kind, given, names, fol):
    """The documented list."""
    if kind == "same":
        return fol
    if kind == "add":
        return fol + [x for x in given if not listed(d, x, fol)]
    if kind == "remove":
        return [x for x in fol if not (x.get_name() in names)]
    if kind == "filter":
        return [x for x in fol if x.get_name() in names]
    if kind == "empty":
        return []
    return given

def make_transformer(kind, given, names):
    if kind == "same":
        return T.make_transformer_same_as_seq()
    if kind == "add":
        return T.make_transformer_add(given)
    if kind == "remove":
        return T.make_transformer_remove(names)
    if kind == "filter":
        return T.make_transformer_filter(names)
    if kind == "empty":
        return T.make_transformer_empty()
    return T.make_transformer_custom(given)

TKINDS = ["same", "add", "remove", "filter", "empty", "custom"]

@contract("C17", TRF, params=TKINDS)
def one_transformer(d, kind):
    fol = d.list("fol", entry)
    given = d.list("given", entry)
    names = d.list("names", lambda e: e.str("n", NAMES))
    before, given_before, names_before = d.snap(fol), d.snap(given), d.snap(names)
    t = make_transformer(kind, given, names)
    got = t.get_flag_option_list_after_transformer_application(fol)
    d.check("documented list", d.same(got, transform(d, kind, given_before, names_before, before)), lambda: (fol, given, names, got))
    d.check("given list unchanged", d.same(fol, before))
    d.check("description unchanged", d.same(given, given_before) and d.same(names, names_before))
    again = t.get_flag_option_list_after_transformer_application(fol)
    d.check("applying again", d.same(again, transform(d, kind, given_before, names_before, before)))

@contract("C17", TRF, params=[(a, b, c) for a in TKINDS for b in TKINDS for c in TKINDS], weight=0.1)
def chain_of_three(d, kinds):
    fol = d.list("fol", entry)
    given = [d.list("given0", entry), d.list("given1", entry), d.list("given2", entry)]
    names = [d.list("names0", lambda e: e.str("n", NAMES)), d.list("names1", lambda e: e.str("n", NAMES)), d.list("names2", lambda e: e.str("n", NAMES))]
    before = d.snap(fol)
    expected = before
    for i in range(3):
        expected = transform(d, kinds[i], given[i], names[i], expected)
    t = T.ChainTransformerFlagOptionList([make_transformer(kinds[i], given[i], names[i]) for i in range(3)])
    got = t.get_flag_option_list_after_transformer_application(fol)
    d.check("from first to last", d.same(got, expected), lambda: (kinds, fol, given, names, got))
    d.check("given list unchanged", d.same(fol, before))

@contract("C17", TRF, prove=False)
def chain_of_any_length(d):
    fol = d.list("fol", entry)
    before = d.snap(fol)
    parts = d.list("parts", lambda e: (e.choose("kind", TKINDS), e.list("given", entry), e.list("names", lambda f: f.str("n", NAMES))))
    expected = before
    for k, g, n in parts:
        expected = transform(d, k, g, n, expected)
    got = T.ChainTransformerFlagOptionList([make_transformer(k, g, n) for k, g, n in parts]).get_flag_option_list_after_transformer_application(fol)
    d.check("from first to last", d.same(got, expected), lambda: (parts, fol, got))
    d.check("given list unchanged", d.same(fol, before))

# ------------------------------------------------------------------ C24
TXT = ["a", "b", "-"]

def any_filestd(d):
    return FileName(d.str("text", TXT)) if d.bool("file") else StdDescriptor(d.enum("std", StdDescriptorEnum))

def any_io_arg(d):
    k = d.choose("arg", ["string", "file", "std"])
    if k == "string":
        return ArgStringType(d.str("text", TXT))
    if k == "file":
        return FileNameWithIOInfo(d.str("text", TXT), any_access(d))
    return StdDescriptorWithIOInfo(d.enum("std", StdDescriptorEnum), any_access(d))

def any_var_arg(d):
    return ArgStringType(d.str("text", TXT)) if d.bool("string") else d.int("id", 0, 3)

def command_parts(d):
    fol = d.list("fo", lambda e: Flag(e.str("name", TXT)) if e.bool("flag") else OptionWithIOVar(e.str("name", TXT), any_var_arg(e)))
    ops = d.list("op", any_var_arg)
    acc = {i: a for i, a in enumerate(d.list("access", any_access))}
    return d.str("cmd", TXT), fol, ops, None if d.bool("no_in") else 1, None if d.bool("no_out") else 2, acc

MAKERS = {
    "FileName": lambda d: FileName(d.str("text", TXT)),
    "StdDescriptor": lambda d: StdDescriptor(d.enum("std", StdDescriptorEnum)),
    "ArgStringType": lambda d: ArgStringType(d.str("text", TXT)),
    "Operand": lambda d: Operand(d.str("text", TXT)),
    "Flag": lambda d: Flag(d.str("text", TXT)),
    "Option": lambda d: Option(d.str("text", TXT), d.str("value", TXT)),
    "OptionWithIO": lambda d: OptionWithIO(d.str("text", TXT), any_io_arg(d)),
    "OptionWithIOVar": lambda d: OptionWithIOVar(d.str("text", TXT), any_var_arg(d)),
    "FileNameWithIOInfo": lambda d: FileNameWithIOInfo(d.str("text", TXT), any_access(d)),
    "StdDescriptorWithIOInfo": lambda d: StdDescriptorWithIOInfo(d.enum("std", StdDescriptorEnum), any_access(d)),
    "AccessKind": lambda d: any_access(d),
    "CommandInvocationInitial": lambda d: CommandInvocationInitial(d.str("cmd", TXT), d.list("fo", lambda e: Flag(e.str("name", TXT)) if e.bool("flag") else Option(e.str("name", TXT), e.str("value", TXT))),
                                                                   d.list("op", lambda e: Operand(e.str("name", TXT)))),
    "CommandInvocationPrefix": lambda d: CommandInvocationPrefix(d.str("cmd", TXT), d.list("fo", lambda e: Flag(e.str("name", TXT))), d.list("pos", any_filestd)),
    "CommandInvocationWithIO": lambda d: CommandInvocationWithIO(d.str("cmd", TXT), d.list("fo", lambda e: Flag(e.str("name", TXT)) if e.bool("flag") else OptionWithIO(e.str("name", TXT), any_io_arg(e))),
                                                                 d.list("op", any_io_arg), None if d.bool("no_in") else make_stdin_with_access_stream_input(),
                                                                 None if d.bool("no_out") else make_stdout_with_access_output()),
    "CommandInvocationWithIOVars": lambda d: CommandInvocationWithIOVars(*command_parts(d)),
    "Mapper": lambda d: Mapper(*command_parts(d)),
    "Aggregator": lambda d: Aggregator(d.enum("kind", AggregatorKindEnum), *command_parts(d)),
    "Splitter": lambda d: Splitter(d.enum("kind", SplitterKindEnum)),
    "MapperSpec": any_mapper,
    "AggregatorSpec": any_aggregator,
    "Parallelizer": any_parallelizer,
    "Transformer": any_transformer,
    "Chain": lambda d: T.ChainTransformerFlagOptionList(d.list("parts", any_transformer)),
}
EQ = ["util_standard.standard_eq", "datatypes.*.__eq__", "annotation_generation.datatypes.parallelizability.*.__eq__"]

def pref(d, name, make):
    d.push(name)
    x = make(d)
    d.pop()
    return x

@contract("C24", EQ, params=[(a, b) for a in sorted(MAKERS) for b in sorted(MAKERS) if a <= b], weight=0.5)
def equal_iff_same(d, kinds):
    a = pref(d, "a", MAKERS[kinds[0]])
    b = pref(d, "b", MAKERS[kinds[1]])
    d.check("equal exactly if same", (a == b) == d.same(a, b) and (b == a) == d.same(a, b), lambda: (a, b))
    d.check("unequal is the opposite", (a != b) == (not d.same(a, b)))

FOREIGN = [None, 0, 1, "a", "-", [], {}, (), object(), AccessKindEnum.STREAM_INPUT, StdDescriptorEnum.STDIN, SplitterKindEnum.CONSEC_CHUNKS, Flag, 3.5, b"a", object]

@contract("C24", EQ, params=sorted(MAKERS), weight=0.3)
def other_objects(d, kind):
    a = pref(d, "a", MAKERS[kind])
    f = d.choose("foreign", FOREIGN)
    r = d.call(lambda: (a == f, f == a, a != f))
    d.check("no error", not r.raised, lambda: r.exc)
    d.check("different", a is None or r.value == (False, False, True), lambda: (a, f, r.value))

def slots(x, acc):
    """Every place in x that holds a component."""
    if isinstance(x, list):
        for i, e in enumerate(x):
            acc.append((x, i)); slots(e, acc)
        acc.append((x, None))
    elif isinstance(x, dict):
        for k, e in x.items():
            acc.append((x, k)); slots(e, acc)
        acc.append((x, "new key"))
    elif hasattr(x, "__dict__") and not isinstance(x, type) and not hasattr(type(x), "__members__"):
        for k, e in vars(x).items():
            acc.append((x, k)); slots(e, acc)
    return acc

@contract("C24", EQ, params=sorted(MAKERS), prove=False, weight=0.5)
def one_component_changed(d, kind):
    """A copy, and the copy with one component replaced."""
    a = pref(d, "a", MAKERS[kind])
    b = d.snap(a)
    d.check("a copy is equal", a == b and not (a != b), lambda: a)
    s = slots(b, [])
    if len(s) == 0:
        return
    place, key = s[d.int("slot", 0, 10 ** 6) % len(s)]
    v = d.choose("new", [0, 1, "a", "b", "-", None, [], True, AccessKindEnum.CONFIG_INPUT, AccessKindEnum.OTHER_OUTPUT, StdDescriptorEnum.STDERR, SplitterKindEnum.INDIV_FILES,
                         AggregatorKindEnum.CUSTOM_N_ARY, AccessKind(AccessKindEnum.OTHER_INPUT), FileName("a"), ArgStringType("a"), Operand("a"), Flag("a"), Flag("b")])
    if isinstance(place, list):
        if key is None:
            place.append(v)
        else:
            place[key] = v
    elif isinstance(place, dict):
        place[key] = v
    else:
        if key not in vars(place):
            return
        vars(place)[key] = v
    d.assume(not has_bool_for_int(a, b))
    d.check("equal exactly if same", (a == b) == d.same(a, b), lambda: (a, b))

def has_bool_for_int(a, b):
    """0 == False and 1 == True are Python's business."""
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return type(a) is not type(b)
    if isinstance(a, list) and isinstance(b, list):
        return any(has_bool_for_int(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return any(has_bool_for_int(a[k], b[k]) for k in a if k in b)
    if hasattr(a, "__dict__") and type(a) is type(b) and not isinstance(a, type):
        return has_bool_for_int(vars(a), vars(b))
    return False

# ------------------------------------------------------------------ C26
ACC = ["datatypes.AccessKind.*", "datatypes.BasicDatatypesWithIO.make_stdin_with_access_stream_input", "datatypes.BasicDatatypesWithIO.make_stdout_with_access_output"]

def questions(a):
    return [a.is_config_input(), a.is_stream_input(), a.is_container_for_input(), a.is_excludes_from_input(), a.is_other_input(), a.is_stream_output(), a.is_other_output()]

KINDS = [K.CONFIG_INPUT, K.STREAM_INPUT, K.CONTAINER_FOR_INPUT, K.EXCLUDES_FROM_INPUT, K.OTHER_INPUT, K.STREAM_OUTPUT, K.OTHER_OUTPUT]

@contract("C26", ACC)
def kind_questions(d):
    k = d.enum("kind", AccessKindEnum)
    a = AccessKind(k)
    d.check("exactly one yes", questions(a) == [k is x for x in KINDS], lambda: (k, questions(a)))
    d.check("input", bool(a.is_any_input()) == (k in INPUT_KINDS), lambda: k)
    d.check("output", bool(a.is_any_output()) == (k in OUTPUT_KINDS), lambda: k)
    d.check("not both", bool(a.is_any_input()) != bool(a.is_any_output()))

@contract("C26", ACC)
def kind_makers(d):
    d.check("seven kinds", len(list(AccessKindEnum)) == 7 and [AK.make_config_input().kind, AK.make_stream_input().kind, AK.make_container_for_input().kind, AK.make_excludes_from_input().kind,
                            AK.make_other_input().kind, AK.make_stream_output().kind, AK.make_other_output().kind] == KINDS)
    i = make_stdin_with_access_stream_input()
    o = make_stdout_with_access_output()
    d.check("standard input", arg_view(i) == STDIN, lambda: arg_view(i))
    d.check("standard output", arg_view(o) == STDOUT, lambda: arg_view(o))
    d.check("descriptors", BD.get_stdin_fd().get_type() is StdDescriptorEnum.STDIN and BD.get_stdout_fd().get_type() is StdDescriptorEnum.STDOUT
            and BD.get_stderr_fd().get_type() is StdDescriptorEnum.STDERR)
    d.check("new objects", AK.make_stream_input() is not AK.make_stream_input())

@contract("C26", ACC)
def kind_from_name(d):
    s = d.str("name", [k.name for k in KINDS] * 2 + [k.name.lower() for k in KINDS] + ["", "INPUT", "OUTPUT", "STREAM", "CONFIG_OUTPUT"])
    r = d.call(AK.get_access_from_string, s)
    wanted = [k for k in KINDS if k.name == s]
    if len(wanted) == 0:
        d.check("other names refused", r.raised, lambda: (s, r.value))
    else:
        d.check("kind of that name", not r.raised and isinstance(r.value, AccessKind) and r.value.kind is wanted[0], lambda: (s, r.value, r.exc))

# ------------------------------------------------------------------ C27
ROLES = ["datatypes.CommandInvocationWithIO.get_operands_with_*", "datatypes.CommandInvocationWithIO.get_options_with_other_output"]

@contract("C27", ROLES)
def operands_by_role(d):
    ops = d.list("op", any_io_arg)
    fol = d.list("fo", lambda e: Flag(e.str("name", NAMES)) if e.bool("flag") else OptionWithIO(e.str("name", NAMES), any_io_arg(e)))
    io = CommandInvocationWithIO(d.str("cmd", TXT), fol, ops, None, None)
    before = d.snap(io)
    role = [arg_view(x)[2] for x in ops]
    for name, got, kind in (("configuration input", io.get_operands_with_config_input(), K.CONFIG_INPUT), ("streaming input", io.get_operands_with_stream_input(), K.STREAM_INPUT),
                            ("other input", io.get_operands_with_other_input(), K.OTHER_INPUT), ("streaming output", io.get_operands_with_stream_output(), K.STREAM_OUTPUT),
                            ("other output", io.get_operands_with_other_output(), K.OTHER_OUTPUT)):
        d.check(name, d.same(got, [x for x in ops if arg_view(x)[2] is kind or (kind is K.CONFIG_INPUT and isinstance(x, ArgStringType))]), lambda: (ops, got))
    got = io.get_options_with_other_output()
    d.check("options with other output", d.same(got, [x for x in fol if isinstance(x, OptionWithIO) and arg_view(x.get_arg())[2] is K.OTHER_OUTPUT]), lambda: (fol, got))
    d.check("listing changes nothing", d.same(io, before))

# ------------------------------------------------------------------ C28
@contract("C28", ["util.list_deduplication"])
def deduplication(d):
    kind = d.choose("elements", ["names", "numbers", "values"])
    if kind == "names":
        l = d.list("l", lambda e: e.str("x", TXT))
    elif kind == "numbers":
        l = d.list("l", lambda e: e.int("x", 0, 4))
    else:
        l = d.list("l", lambda e: Flag(e.str("x", TXT)) if e.bool("flag") else OptionWithIOVar(e.str("x", TXT), e.int("id", 0, 1)))
    before = d.snap(l)
    got = U.list_deduplication(l)
    d.check("first occurrences in order", d.same(got, [before[i] for i in range(len(before)) if not any(d.same(before[j], before[i]) for j in range(i))]), lambda: (before, got))
    d.check("list unchanged", d.same(l, before))

@contract("C28", ["util.foldl"], prove="the result is a tuple nested as deep as the list is long; folding_into_a_list determines the calls")
def folding(d):
    l = d.list("l", lambda e: e.int("x", 0))
    acc = d.int("acc", 0)
    r = U.foldl(lambda x, a: ("step", x, a), acc, l)
    n = len(l)
    for i in range(n):
        ok = isinstance(r, tuple) and len(r) == 3 and r[0] == "step" and r[1] == l[n - 1 - i]
        d.check("each element in its turn", ok, lambda: (l, r))
        r = r[2]
    d.check("starts from the given value", r == acc)

def append_to(x, acc):
    acc.append(x)
    return acc

@contract("C28", ["util.foldl"])
def folding_into_a_list(d):
    """The elements are passed in order, each once, with the value returned for the previous one."""
    l = d.list("l", lambda e: e.str("x", TXT))
    acc = d.list("acc", lambda e: e.str("y", TXT))
    before, acc_before = d.snap(l), d.snap(acc)
    r = U.foldl(append_to, acc, l)
    d.check("the given value, then each element in its turn", d.same(r, acc_before + before), lambda: (acc_before, before, r))
    d.check("list unchanged", d.same(l, before))

@contract("C28", ["util.foldl"])
def folding_numbers(d):
    l = d.list("l", lambda e: e.int("x", 0))
    acc = d.int("acc", 0)
    d.check("counts every element", U.foldl(lambda x, a: a + 1, acc, l) == acc + len(l), lambda: l)

@contract("C28", ["util_flag_option.make_arg_simple"])
def simple_argument(d):
    words = d.list("words", lambda e: e.str("w", ["-a", "-k", "1", ""]))
    r = d.call(make_arg_simple, words)
    if len(words) == 1:
        d.check("one word is a flag", not r.raised and d.same(r.value, Flag(words[0])), lambda: words)
    elif len(words) == 2:
        d.check("two words are an option", not r.raised and d.same(r.value, Option(words[0], words[1])), lambda: words)
    else:
        d.check("any other number refused", r.raised, lambda: words)

@contract("C28", ["util.return_*_if_none_else_itself"])
def defaults(d):
    l = d.list("l", lambda e: e.int("x", 0))
    v = d.choose("value", [l, 0, False, "", 1, True, "a", (), {}])
    dflt = d.choose("default", [7, "x", None])
    d.check("given value kept", d.is_same_object(U.return_default_if_none_else_itself(v, dflt), v), lambda: v)
    d.check("given list kept", d.is_same_object(U.return_empty_list_if_none_else_itself(l), l) and d.is_same_object(U.return_empty_flag_option_list_if_none_else_itself(l), l)
            and d.is_same_object(U.return_empty_pos_config_list_if_none_else_itself(l), l), lambda: l)
    d.check("missing value replaced", d.is_same_object(U.return_default_if_none_else_itself(None, dflt), dflt))
    one, two = U.return_empty_list_if_none_else_itself(None), U.return_empty_list_if_none_else_itself(None)
    d.check("missing list is a new empty one", one == [] and two == [] and not d.is_same_object(one, two))
    d.check("others", U.return_empty_flag_option_list_if_none_else_itself(None) == [] and U.return_empty_pos_config_list_if_none_else_itself(None) == [])
    t = any_transformer(d)
    e, s = T.return_transformer_flagoption_list_empty_if_none_else_itself(t), T.return_transformer_flagoption_list_same_as_seq_if_none_else_itself(t)
    if t is None:
        d.check("default transformers", isinstance(e, T.TransformerFlagOptionListEmpty) and isinstance(s, T.TransformerFlagOptionListSeq))
    else:
        d.check("transformers kept", d.is_same_object(e, t) and d.is_same_object(s, t))

# ------------------------------------------------------------------ C29
CODES = [97, 92, 61, 91, 93, 45, 58, 126, 42, 34, 36, 10, 32, 39, 233, 0x1F600, 96, 33, 59]

class Inner:
    """A quoted part of unknown contents in a proof: its rendering, or None."""
    def __init__(self, text):
        self.text = text

def inner_contract(inner):
    if inner.text is None:
        raise NotImplementedError
    return inner.text

def part(d, depth):
    k = d.choose("part", ["C", "E", "Q", "B", "V", "C", "E", "other"] if depth > 0 else ["C", "E", "B", "V", "C", "E"])
    if k in ("C", "E"):
        return [k, d.choose("code", CODES) if d.native and d.bool("usual") else d.int("code", 1, 0xD7FF)]
    if k == "Q":
        if not d.native:
            return [k, Inner(None if d.bool("refused") else d.str("inside"))]
        return [k, d.list("inside", lambda e: part(e, depth - 1))]
    if k == "B":
        return [k, d.str("cmd", ["ls", "echo $x", ""])]
    if k == "V":
        return [k, [d.choose("sort", ["Normal", "Minus"]), d.bool("null"), d.str("var", ["x", "HOME", "1", "a_b"]), d.list("arg", lambda e: ["C", 97])]]
    kind = d.str("kind", ["A", "T", "c", "q", "CC", "", "QQ"])
    d.assume(kind not in ("C", "E", "Q", "B", "V"))
    return [kind, d.int("code", 1, 99)]

def rendered(p):
    """The rendering of a part, or None if it is refused."""
    k, v = p[0], p[1]
    if k in ("C", "E"):
        return chr(v)
    if k == "Q":
        text = v.text if isinstance(v, Inner) else rendering_of(v)
        return None if text is None else '"' + text + '"'
    if k == "V":
        return "${" + v[2] + "}"
    if k == "B":
        return "$(" + v + ")"
    return None

def rendering_of(word):
    parts = [rendered(x) for x in word]
    return None if None in parts else "".join(parts)

@contract("C29", ["datatypes.BasicDatatypes.format_arg_chars", "datatypes.BasicDatatypes.format_arg_char", "datatypes.BasicDatatypes.get_kv"])
def rendering(d):
    """By induction on the depth of quotes: quoted parts are rendered as this contract says."""
    word = d.list("word", lambda e: part(e, 3))
    before = d.snap(word)
    d.by_induction(BD.format_arg_chars, inner_contract)
    parts = [rendered(x) for x in word]
    r = d.call(BD.format_arg_chars, word)
    if None in parts:
        d.check("other kinds refused", r.raised, lambda: (word, r.value))
    else:
        d.check("parts in order", not r.raised and r.value == "".join(parts), lambda: (word, r.value, r.exc))
    d.check("word unchanged", d.same(word, before))
