"""C12, C18-C23: commands with numbered streams, and the commands derived from them."""
from specs.common import *
from specs.c13_par import any_parallelizer, any_transformer, view, I, S, M, G, AS, MapperSpec, Parallelizer, Splitter
from specs.c17_util import transform, make_transformer, TKINDS
from pash_annotations.annotation_generation.datatypes.parallelizability import Parallelizer as PM
from pash_annotations.annotation_generation.datatypes.parallelizability import TransformerFlagOptionList as T
from pash_annotations.annotation_generation.datatypes.parallelizability.Mapper import Mapper
from pash_annotations.annotation_generation.datatypes.parallelizability.Aggregator import Aggregator
from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo

IOV = ["datatypes.CommandInvocationWithIOVars.*"]
OPTION_NAMES = ["-o", "-k", "-T", "-f"]
FLAG_NAMES = ["-a", "-r", "-n", "-o"]
CMD_NAMES = ["cmd", "sort", "cat"]

# Elements are drawn as (thing, kind): the thing as stored in the command, and the access kind if it is (or holds) a stream id.
def drawn_arg(e):
    if e.bool("string"):
        return ArgStringType(e.str("text", ["x", "-", "1"])), None
    return e.unique("id"), e.enum("access", AccessKindEnum)

def drawn_id(e):
    return e.unique("id"), e.enum("access", AccessKindEnum)

def drawn_flag_option(e):
    if e.bool("flag"):
        return Flag(e.str("name", FLAG_NAMES)), None
    a, k = drawn_arg(e)
    return OptionWithIOVar(e.str("name", OPTION_NAMES), a), k

class Drawn:
    """A command with numbered streams and, in order of counting, its ids and their kinds."""
    def __init__(self, d, keeps=None, ids_only=False):
        """keeps: a condition on the options that hold streaming inputs or outputs, or 'some': any part that has them; given by self.kept."""
        def flag_option(e):
            x, k = drawn_flag_option(e)
            if keeps == "some":
                z = e.bool("kept")
                e.assume(k is not K.STREAM_INPUT and k is not K.STREAM_OUTPUT or z)
                return x, k, z
            if keeps is not None:
                e.assume(k is not K.STREAM_INPUT and k is not K.STREAM_OUTPUT or keeps(x))
            return x, k, True
        self.name = d.str("cmd", CMD_NAMES)
        drawn = d.list("fo", flag_option)
        self.fol = [(x, k) for x, k, z in drawn]
        self.kept = [z for x, k, z in drawn]
        self.ops = d.list("op", drawn_id if ids_only else drawn_arg)
        self.inp = (None, None) if d.bool("no_in") else (d.unique("in"), d.choose("in_access", [K.STREAM_INPUT, K.STREAM_INPUT, K.CONFIG_INPUT, K.OTHER_INPUT, K.STREAM_OUTPUT]))
        self.out = (None, None) if d.bool("no_out") else (d.unique("out"), d.choose("out_access", [K.STREAM_OUTPUT, K.STREAM_OUTPUT, K.OTHER_OUTPUT, K.STREAM_INPUT]))
    def ids(self):
        """(id, kind) counted through option values, operands, implicit input, implicit output."""
        return [(x.get_arg(), k) for x, k in self.fol if k is not None] + [(x, k) for x, k in self.ops if k is not None] + \
            [(x, k) for x, k in (self.inp, self.out) if k is not None]
    def flag_option_list(self):
        return [x for x, k in self.fol]
    def access(self):
        return {i: AccessKind(k) for i, k in self.ids()}
    def build(self):
        return CommandInvocationWithIOVars(self.name, self.flag_option_list(), [x for x, k in self.ops], self.inp[0], self.out[0], self.access())

def kind_map(c):
    return {i: a.kind for i, a in c.access_map.items()}

def cmd_view(c):
    """Everything observable of a command with numbered streams."""
    return (c.cmd_name, [("flag", x.get_name()) if isinstance(x, Flag) else ("option", x.get_name(), thing(x.get_arg())) for x in c.flag_option_list],
            [thing(x) for x in c.operand_list], c.implicit_use_of_streaming_input, c.implicit_use_of_streaming_output, kind_map(c))

def thing(x):
    return ("string", x.get_name()) if isinstance(x, ArgStringType) else x

def view_of(name, fol, ops, inp, out, kinds):
    return (name, [("flag", x.get_name()) if isinstance(x, Flag) else ("option", x.get_name(), thing(x.get_arg())) for x in fol], [thing(x) for x in ops], inp, out, kinds)

def renumbered(dr, old, new, fol=None):
    """The view of the drawn command with the old ids replaced by the new ones."""
    m = dict(zip(old, new))
    def sub(x):
        return m.get(x, x) if type(x) is int else x
    fol = dr.flag_option_list() if fol is None else fol
    return view_of(dr.name, [OptionWithIOVar(x.get_name(), sub(x.get_arg())) if isinstance(x, OptionWithIOVar) else x for x in fol], [sub(x) for x, k in dr.ops],
                   sub(dr.inp[0]), sub(dr.out[0]), {sub(i): k for i, k in dr.ids()})

def of_kind(dr, kind):
    return [i for i, k in dr.ids() if k is kind]

# ------------------------------------------------------------------ C12 on numbered streams
@contract("C12", ["datatypes.CommandInvocationWithIOVars.has_other_outputs"])
def other_outputs_of_command(d):
    dr = Drawn(d)
    c = dr.build()
    before = d.snap(c)
    d.check("has other outputs", c.has_other_outputs() == (len(of_kind(dr, K.OTHER_OUTPUT)) > 0), lambda: cmd_view(c))
    d.check("command unchanged", d.same(c, before))

# ------------------------------------------------------------------ C18
@contract("C18", IOV, params=[("inputs", "as many"), ("inputs", "other inputs"), ("outputs", "as many"), ("outputs", "other outputs"), ("both", "as many"), ("both", "other inputs"), ("both", "other outputs")])
def substituting(d, param):
    which, numbers = param
    dr = Drawn(d)
    c = dr.build()
    ins, outs = of_kind(dr, K.STREAM_INPUT), of_kind(dr, K.STREAM_OUTPUT)
    n_in = d.int("n_in", 0, near=6) if numbers == "other inputs" else len(ins)
    n_out = d.int("n_out", 0, near=6) if numbers == "other outputs" else len(outs)
    d.assume(numbers != "other inputs" or n_in != len(ins))
    d.assume(numbers != "other outputs" or n_out != len(outs))
    new_in, new_out = d.unique_list("new_in", n_in), d.unique_list("new_out", n_out)
    if which == "inputs":
        r = d.call(c.substitute_inputs_in_cmd_invocation, list(new_in))
        old, new = ins, new_in
    elif which == "outputs":
        r = d.call(c.substitute_outputs_in_cmd_invocation, list(new_out))
        old, new = outs, new_out
    else:
        r = d.call(c.substitute_inputs_and_outputs_in_cmd_invocation, list(new_in), list(new_out))
        old, new = ins + outs, new_in + new_out
    if numbers == "as many":
        d.check("accepted", not r.raised, lambda: r.exc)
        d.check("replaced in order, the rest unchanged", cmd_view(c) == renumbered(dr, old, new), lambda: (cmd_view(c), renumbered(dr, old, new)))
    else:
        d.check("other numbers of ids refused", r.raised, lambda: (ins, outs, new_in, new_out, cmd_view(c)))

@contract("C18", IOV)
def replacing_one(d):
    """Replacing one id by a fresh one, wherever it occurs."""
    dr = Drawn(d)
    c = dr.build()
    ids = [i for i, k in dr.ids()]
    d.assume(len(ids) > 0)
    old = ids[d.int("which", 0, len(ids) - 1)]
    new = d.unique("new")
    c.replace_var(old, new)
    d.check("replaced", cmd_view(c) == renumbered(dr, [old], [new]), lambda: (cmd_view(c), old, new))

# ------------------------------------------------------------------ C19
@contract("C19", IOV + ["annotation_generation.datatypes.Inputs.*"])
def listing(d):
    dr = Drawn(d)
    c = dr.build()
    before = d.snap(c)
    inputs = c.generate_inputs()
    d.check("streaming inputs", list(inputs.get_streaming_inputs()) == of_kind(dr, K.STREAM_INPUT), lambda: (cmd_view(c), inputs.get_streaming_inputs()))
    d.check("configuration inputs empty", list(inputs.get_config_inputs()) == [])
    d.check("all inputs", list(inputs.get_all_inputs()) == of_kind(dr, K.STREAM_INPUT))
    d.check("marked as streaming", inputs.is_streaming())
    d.check("unchanged by listing inputs", d.same(c, before), lambda: (cmd_view(before), cmd_view(c)))
    outputs = c.generate_outputs()
    d.check("outputs", list(outputs) == [i for i, k in dr.ids() if k in OUTPUT_KINDS], lambda: (cmd_view(c), outputs))
    d.check("unchanged by listing outputs", d.same(c, before), lambda: (cmd_view(before), cmd_view(c)))

@contract("C19", IOV)
def listing_repeated_ids(d):
    """An id that occurs several times is listed once per occurrence."""
    ids = [0, 1, 2, 3]
    kinds = {i: d.enum("access%d" % i, AccessKindEnum) for i in ids}
    fol = d.list("fo", lambda e: OptionWithIOVar(e.str("name", OPTION_NAMES), e.int("id", 0, 3)))
    ops = d.list("op", lambda e: e.int("id", 0, 3))
    i, o = d.int("in", 0, 3), d.int("out", 0, 3)
    c = CommandInvocationWithIOVars("cmd", fol, ops, i, o, {x: AccessKind(kinds[x]) for x in ids})
    before = d.snap(c)
    all_ids = [x.get_arg() for x in fol] + ops + [i, o]
    d.check("streaming inputs", list(c.generate_inputs().get_streaming_inputs()) == [x for x in all_ids if kinds[x] is K.STREAM_INPUT])
    d.check("outputs", list(c.generate_outputs()) == [x for x in all_ids if kinds[x] in OUTPUT_KINDS])
    d.check("unchanged", d.same(c, before))

# ------------------------------------------------------------------ C20
@contract("C20", IOV, params=["inputs", "outputs", "inputs then outputs"])
def removing(d, which):
    dr = Drawn(d)
    c = dr.build()
    gone = {"inputs": (K.STREAM_INPUT,), "outputs": (K.STREAM_OUTPUT,), "inputs then outputs": (K.STREAM_INPUT, K.STREAM_OUTPUT)}[which]
    if which != "outputs":
        c.remove_streaming_inputs()
    if which != "inputs":
        c.remove_streaming_outputs()
    keep = lambda pair: pair[1] is None or pair[1] not in gone
    expected = view_of(dr.name, [x for x, k in dr.fol if keep((x, k))], [x for x, k in dr.ops if keep((x, k))], dr.inp[0] if keep(dr.inp) else None,
                       dr.out[0] if keep(dr.out) else None, {i: k for i, k in dr.ids() if k not in gone})
    d.check("exactly those removed", cmd_view(c) == expected, lambda: (cmd_view(c), expected))

# ------------------------------------------------------------------ C21
MAP = ["annotation_generation.datatypes.parallelizability.MapperSpec.get_mapper", "annotation_generation.datatypes.parallelizability.Mapper.*",
       "annotation_generation.datatypes.parallelizability.Parallelizer.get_actual_mapper"] + IOV

def given_options(d):
    return (d.list("given", lambda e: Flag(e.str("name", FLAG_NAMES)) if e.bool("flag") else OptionWithIOVar(e.str("name", OPTION_NAMES), ArgStringType(e.str("text", ["x", "1"])))),
            d.list("names", lambda e: e.str("n", FLAG_NAMES + OPTION_NAMES)))

def drawn_transformer(d, k=None):
    """(transformer or None, function computing the documented list)"""
    k = d.choose("transformer", ["none"] + TKINDS) if k is None else k
    given, names = given_options(d)
    return (None if k == "none" else make_transformer(k, given, names)), (lambda fol: fol if k == "none" else transform(d, k, given, names, fol))

def ids_of(fol):
    return [x.get_arg() for x in fol if isinstance(x, OptionWithIOVar) and type(x.get_arg()) is int]

def by_kind(x, k, new_in, new_out):
    """The id that stands for x in the mapper."""
    return new_in if k is K.STREAM_INPUT else new_out if k is K.STREAM_OUTPUT else x

def option_ids(fol):
    return [x.get_arg() for x in fol if isinstance(x, OptionWithIOVar) and type(x.get_arg()) is int]

class Part(T.TransformerFlagOptionList):
    """Stands for a transformer that keeps any part of the list (as removing and filtering do by C17)."""
    kept = ()
    def get_flag_option_list_after_transformer_application(self, original_flag_option_list):
        return [x for x, z in zip(original_flag_option_list, self.kept) if z]

BY_NAME = ["custom, remove", "custom, filter"]
MAPPER_PARAMS = ["same", "custom, a part"] + ["custom, " + k for k in ["none"] + TKINDS if "custom, " + k not in BY_NAME]

def mapper_spec(d, param):
    """(description, name it gives or None, what it does to the flags and options, which of them it keeps)"""
    if param == "same":
        return MapperSpec(M.SAME_AS_SEQ, is_implemented=True), None, lambda fol: fol, None
    kind = param[len("custom, "):]
    named = None if d.bool("same_name") else d.str("map", ["map", "x"])
    if kind == "none":
        return MapperSpec(M.CUSTOM, named, None, True), named, lambda fol: fol, None
    if kind == "a part":
        t = Part()
        return MapperSpec(M.CUSTOM, named, t, True), named, t.get_flag_option_list_after_transformer_application, "some"
    given, names = given_options(d)
    keeps = {"same": lambda x: True, "add": lambda x: True, "remove": lambda x: x.get_name() not in names, "filter": lambda x: x.get_name() in names,
             "empty": lambda x: False, "custom": lambda x: False}[kind]
    return MapperSpec(M.CUSTOM, named, make_transformer(kind, given, names), True), named, lambda fol: transform(d, kind, given, names, fol), keeps

def the_mapper(d, spec, c, new_in, new_out, aux):
    """From the description itself, or from a parallelizer with it."""
    if d.bool("directly"):
        return spec.get_mapper(c, new_in, new_out, aux)
    return Parallelizer(Splitter(S.CONSEC_CHUNKS), spec, AS.make_aggregator_spec_concatenate(), None, len(aux)).get_actual_mapper(c, new_in, new_out, aux)

@contract("C21", MAP, params=MAPPER_PARAMS)
def mapper_without_auxiliaries(d, param):
    any_mapper(d, param)

@contract("C21", MAP, params=BY_NAME, prove="proved for any part that is kept, and that these keep exactly the documented part is proved in C17")
def mapper_with_options_removed(d, param):
    any_mapper(d, param)

def any_mapper(d, param):
    spec, named, f, keeps = mapper_spec(d, param)
    dr = Drawn(d, keeps)
    if keeps == "some":
        spec.flag_option_list_transformer.kept = dr.kept
    d.assume(len(of_kind(dr, K.STREAM_INPUT)) == 1 and len(of_kind(dr, K.STREAM_OUTPUT)) == 1)
    new_in, new_out = d.unique("new_in"), d.unique("new_out")
    sub = lambda x, k: by_kind(x, k, new_in, new_out)
    renumbered_options = [x if k is None else OptionWithIOVar(x.get_name(), sub(x.get_arg(), k)) for x, k in dr.fol]
    fol = f(renumbered_options)
    was, live = option_ids(renumbered_options), option_ids(fol)
    c = dr.build()
    before, spec_before = d.snap(c), d.snap(spec)
    m = the_mapper(d, spec, c, new_in, new_out, [])
    got = cmd_view(m)
    kinds = {sub(i, k): k for i, k in dr.ids()}
    expected = view_of(dr.name if named is None else named, fol, [x if k is None else sub(x, k) for x, k in dr.ops],
                       None if dr.inp[1] is None else sub(*dr.inp), None if dr.out[1] is None else sub(*dr.out), kinds)
    d.check("a mapper", isinstance(m, Mapper))
    d.check("name", got[0] == expected[0])
    d.check("flags and options", got[1] == expected[1], lambda: (got[1], expected[1]))
    d.check("operands", got[2] == expected[2], lambda: (got[2], expected[2]))
    d.check("implicit streams", got[3:5] == expected[3:5], lambda: (got, expected))
    d.check("access of the streams", all(got[5].get(i) is kinds[i] for i in live + [x for x in expected[2] if type(x) is int] + [x for x in expected[3:5] if x is not None]),
            lambda: (got[5], expected[5]))
    d.check("no other streams", len(live) != len(was) or got[5] == kinds, lambda: (got[5], expected[5]))
    d.check("command unchanged", d.same(c, before), lambda: (cmd_view(c), cmd_view(before)))
    d.check("description unchanged", d.same(spec, spec_before))

@contract("C21", MAP, params=MAPPER_PARAMS + BY_NAME)
def mapper_with_auxiliaries(d, param):
    spec, named, f, keeps = mapper_spec(d, param)
    dr = Drawn(d, keeps, ids_only=True)
    if keeps == "some":
        spec.flag_option_list_transformer.kept = dr.kept
    d.assume(len(of_kind(dr, K.STREAM_INPUT)) <= 1 and len(of_kind(dr, K.STREAM_OUTPUT)) <= 1)
    new_in, new_out = d.unique("new_in"), d.unique("new_out")
    aux = d.unique_list("aux", d.int("n_aux", 1, near=4))
    fol = f(dr.flag_option_list())
    was, live = option_ids(dr.flag_option_list()), option_ids(fol)
    c = dr.build()
    before, spec_before = d.snap(c), d.snap(spec)
    given_aux = list(aux)
    m = the_mapper(d, spec, c, new_in, new_out, given_aux)
    got = cmd_view(m)
    kinds = {x.get_arg(): k for x, k in dr.fol if k is not None}
    d.check("a mapper", isinstance(m, Mapper))
    d.check("name", got[0] == (dr.name if named is None else named))
    d.check("flags and options", got[1] == view_of("", fol, [], None, None, {})[1], lambda: (got[1], fol))
    d.check("operands are input, output, auxiliary outputs", got[2] == [new_in, new_out] + aux, lambda: got[2])
    d.check("no implicit streams", got[3:5] == (None, None))
    d.check("access of the streams", got[5].get(new_in) is K.STREAM_INPUT and got[5].get(new_out) is K.STREAM_OUTPUT and all(got[5].get(i) is K.STREAM_OUTPUT for i in aux), lambda: got[5])
    d.check("access of the options", all(got[5].get(i) is kinds[i] for i in live), lambda: (got[5], kinds))
    expected = dict(kinds)
    expected[new_in] = K.STREAM_INPUT
    for i in [new_out] + aux:
        expected[i] = K.STREAM_OUTPUT
    d.check("no other streams", len(live) != len(was) or got[5] == expected, lambda: (got[5], expected))
    d.check("command unchanged", d.same(c, before))
    d.check("description unchanged", d.same(spec, spec_before))
    d.check("auxiliary list unchanged", given_aux == aux)

# ------------------------------------------------------------------ C22
AGG = ["annotation_generation.datatypes.parallelizability.AggregatorSpec.get_aggregator", "annotation_generation.datatypes.parallelizability.AggregatorSpec.get_actual_2_ary_aggregator_with_aux",
       "annotation_generation.datatypes.parallelizability.Aggregator.*", "annotation_generation.datatypes.parallelizability.Parallelizer.get_actual_*"] + IOV

def through(d, spec, aux=0):
    """The description itself, or a parallelizer with it."""
    if d.bool("directly"):
        return spec.get_aggregator, spec.get_actual_2_ary_aggregator_with_aux
    p = Parallelizer(Splitter(S.CONSEC_CHUNKS), MapperSpec(M.SAME_AS_SEQ, is_implemented=True), spec, None, aux)
    return p.get_actual_aggregator, p.get_actual_2_ary_aggregator_with_aux

def stream_kinds(ins, outs):
    m = {i: K.STREAM_INPUT for i in ins}
    for o in outs:
        m[o] = K.STREAM_OUTPUT
    return m

def new_ids(d, name, n=None):
    return d.unique_list(name, d.int(name + ".n", 0, near=5) if n is None else n)

@contract("C22", AGG)
def concatenation(d):
    dr = Drawn(d)
    c = dr.build()
    spec = AS.AggregatorSpecNonFunc(G.CONCATENATE, True)
    inputs, out = new_ids(d, "inputs"), d.unique("output")
    given, before, spec_before = list(inputs), d.snap(c), d.snap(spec)
    a = through(d, spec)[0](c, given, out)
    d.check("cat over the inputs to the output", cmd_view(a) == ("cat", [], inputs, None, out, stream_kinds(inputs, [out])), lambda: (inputs, out, cmd_view(a)))
    d.check("an aggregator", isinstance(a, Aggregator) and a.is_aggregator_concatenate() and a.kind is G.CONCATENATE)
    d.check("command unchanged", d.same(c, before))
    d.check("inputs unchanged", given == inputs)
    d.check("description unchanged", d.same(spec, spec_before))

@contract("C22", AGG, params=["ADJ_LINES_MERGE", "ADJ_LINES_SEQ"])
def adjacent_lines_refuse(d, kind):
    dr = Drawn(d)
    c = dr.build()
    spec = AS.AggregatorSpecNonFunc(G[kind], True)
    inputs = new_ids(d, "inputs")
    r = d.call(through(d, spec)[0], c, list(inputs), d.unique("output"))
    if len(inputs) != 1:
        d.check("other numbers of inputs refused", r.raised, lambda: (inputs, r.value))
    else:
        d.check("asked with one input", True)

AGG_KINDS = ["ADJ_LINES_FUNC", "CUSTOM_2_ARY", "CUSTOM_N_ARY"]
NUMBER = {"ADJ_LINES_FUNC": 1, "CUSTOM_2_ARY": 2, "CUSTOM_N_ARY": None}

def agg_inputs(d, kind):
    right = NUMBER[kind]
    return new_ids(d, "inputs", right) if right is not None and d.chance("right", 0.8) else new_ids(d, "inputs")

@contract("C22", AGG, params=[(k, t) for k in AGG_KINDS for t in ["none"] + TKINDS])
def derived_aggregator(d, param):
    kind, transformer = param
    dr = Drawn(d)
    d.assume(dr.inp[1] in (None, K.STREAM_INPUT) and dr.out[1] in (None, K.STREAM_OUTPUT))
    streams = lambda k: k is K.STREAM_INPUT or k is K.STREAM_OUTPUT
    t, f = drawn_transformer(d, transformer)
    c = dr.build()
    spec = AS.AggregatorSpecFuncTransformer(G[kind], t, True)
    inputs, out = agg_inputs(d, kind), d.unique("output")
    given, before, spec_before = list(inputs), d.snap(c), d.snap(spec)
    r = d.call(through(d, spec)[0], c, given, out)
    if NUMBER[kind] is not None and len(inputs) != NUMBER[kind]:
        d.check("other numbers of inputs refused", r.raised, lambda: (inputs, r.value))
        return
    d.check("built", not r.raised, lambda: r.exc)
    a = r.value
    others = [x for x, k in dr.fol if not streams(k)]
    fol = f(others)
    was, live = option_ids(others), option_ids(fol)
    got = cmd_view(a)
    kinds = {i: k for i, k in dr.ids() if not streams(k)}
    expected = dict(kinds)
    expected[out] = K.STREAM_OUTPUT
    for i in inputs:
        expected[i] = K.STREAM_INPUT
    d.check("name", got[0] == dr.name)
    d.check("kind", isinstance(a, Aggregator) and a.kind is G[kind] and not a.is_aggregator_concatenate())
    d.check("flags and options", got[1] == view_of("", fol, [], None, None, {})[1], lambda: (got[1], fol))
    d.check("exactly the inputs as operands", got[2] == inputs, lambda: (got[2], inputs))
    d.check("the output implicit", got[3:5] == (None, out), lambda: got)
    d.check("access of the streams", got[5].get(out) is K.STREAM_OUTPUT and all(got[5].get(i) is K.STREAM_INPUT for i in inputs), lambda: got[5])
    d.check("access of the other options kept", all(got[5].get(i) is kinds[i] for i in live), lambda: got[5])
    d.check("no other streams", len(live) != len(was) or got[5] == expected, lambda: (got[5], expected))
    d.check("command unchanged", d.same(c, before), lambda: (cmd_view(c), cmd_view(before)))
    d.check("inputs unchanged", given == inputs)
    d.check("description unchanged", d.same(spec, spec_before))

TEXTS = {"merge": ("merge", []), "sort -m": ("sort", ["-m"]), "sort -mr": ("sort", ["-m", "-r"]), "uniq --count": ("uniq", ["-c"]), "agg": ("agg", []), "agg -x y": ("agg", []),
         "alt_bigram_aux_reduce": ("alt_bigram_aux_reduce", []), "'my agg'": ("my agg", []), "sort -m extra": ("sort", ["-m"]), "wc -l -c": ("wc", ["-l", "-c"])}

@contract("C22", AGG + ["parser.parser.parse"], params=[(k, t) for k in AGG_KINDS for t in sorted(TEXTS)])
def aggregator_from_text(d, param):
    kind, text = param
    dr = Drawn(d)
    c = dr.build()
    spec = AS.AggregatorSpecFuncStringRepresentation(G[kind], text, True)
    inputs, out = agg_inputs(d, kind), d.unique("output")
    given, before, spec_before = list(inputs), d.snap(c), d.snap(spec)
    r = d.call(through(d, spec)[0], c, given, out)
    if NUMBER[kind] is not None and len(inputs) != NUMBER[kind]:
        d.check("other numbers of inputs refused", r.raised, lambda: (inputs, r.value))
    elif kind != "ADJ_LINES_FUNC":
        d.check("built", not r.raised, lambda: r.exc)
        name, flags = TEXTS[text]
        d.check("command of the text on the inputs", cmd_view(r.value) == (name, [("flag", x) for x in flags], inputs, None, out, stream_kinds(inputs, [out])), lambda: cmd_view(r.value))
        d.check("kind", isinstance(r.value, Aggregator) and r.value.kind is G[kind])
    d.check("nothing else changed", d.same(c, before) and given == inputs and d.same(spec, spec_before))

@contract("C22", AGG + ["parser.parser.parse"], params=[(k, t) for k in ("CUSTOM_2_ARY", "CUSTOM_N_ARY") for t in sorted(TEXTS)])
def aggregator_with_auxiliaries(d, param):
    kind, text = param
    spec = AS.AggregatorSpecFuncStringRepresentation(G[kind], text, True)
    n = d.int("n", 0, near=4)
    in1, in2, out = d.unique("in1"), d.unique("in2"), d.unique("output")
    unequal = d.chance("unequal", 0.25)
    def some(name):
        return d.unique_list(name, d.int(name + ".n", 0, near=4) if unequal else n)
    aux1, aux2, aux_out = some("aux1"), some("aux2"), some("aux_out")
    g1, g2, g3 = list(aux1), list(aux2), list(aux_out)
    spec_before = d.snap(spec)
    r = d.call(through(d, spec, n)[1], in1, g1, in2, g2, out, g3)
    if len(aux1) != len(aux2) or len(aux1) != len(aux_out):
        d.check("unequal numbers refused", r.raised)
    else:
        d.check("built", not r.raised, lambda: r.exc)
        name, flags = TEXTS[text]
        ins = [in1] + aux1 + [in2] + aux2
        outs = [out] + aux_out
        d.check("operands in order, streaming", cmd_view(r.value) == (name, [("flag", x) for x in flags], ins + outs, None, None, stream_kinds(ins, outs)), lambda: (ins, outs, cmd_view(r.value)))
    d.check("lists unchanged", g1 == aux1 and g2 == aux2 and g3 == aux_out)
    d.check("description unchanged", d.same(spec, spec_before))

@contract("C22", AGG)
def auxiliaries_without_text_refused(d):
    t, f = drawn_transformer(d)
    spec = AS.AggregatorSpecFuncTransformer(d.choose("kind", [G.ADJ_LINES_FUNC, G.CUSTOM_2_ARY, G.CUSTOM_N_ARY]), t, True) if d.bool("derived") else \
        AS.AggregatorSpecNonFunc(d.choose("kind", [G.CONCATENATE, G.ADJ_LINES_MERGE, G.ADJ_LINES_SEQ]), True)
    n = d.int("n", 0, 2)
    r = d.call(through(d, spec, n)[1], 0, [1, 2][:n], 3, [4, 5][:n], 6, [7, 8][:n])
    d.check("refused", r.raised, lambda: cmd_view(r.value))

# ------------------------------------------------------------------ C23
def edit(d, x):
    """An operation on a command, or an edit of one of its lists."""
    what = d.choose("edit", ["substitute", "remove inputs", "remove outputs", "replace", "append flag", "clear flags", "append operand", "reverse operands", "clear operands",
                             "access", "forget", "rename"])
    if what == "substitute":
        ins = [i for i in stream_ids(x) if x.access_map[i].kind is K.STREAM_INPUT]
        outs = [i for i in stream_ids(x) if x.access_map[i].kind is K.STREAM_OUTPUT]
        x.substitute_inputs_and_outputs_in_cmd_invocation([d.unique("new") for _ in ins], [d.unique("new") for _ in outs])
    elif what == "remove inputs":
        x.remove_streaming_inputs()
    elif what == "remove outputs":
        x.remove_streaming_outputs()
    elif what == "replace":
        ids = stream_ids(x)
        if len(ids) > 0:
            x.replace_var(ids[0], d.unique("new"))
    elif what == "append flag":
        x.flag_option_list.append(Flag("-spoiled"))
    elif what == "clear flags":
        x.flag_option_list.clear()
    elif what == "append operand":
        x.operand_list.append(ArgStringType("spoiled"))
    elif what == "reverse operands":
        x.operand_list.reverse()
    elif what == "clear operands":
        x.operand_list.clear()
    elif what == "access":
        x.access_map[d.unique("new")] = AccessKind(K.OTHER_INPUT)
    elif what == "forget":
        x.access_map.clear()
    else:
        x.cmd_name = "spoiled"

def stream_ids(x):
    return [i for i in ids_of(x.flag_option_list) + [o for o in x.operand_list if type(o) is int] + [x.implicit_use_of_streaming_input, x.implicit_use_of_streaming_output]
            if i is not None and i in x.access_map]

DERIVE = MAP + AGG + ["annotation_generation.datatypes.parallelizability.Parallelizer.make_parallelizer_round_robin_with_unwrap_from_other"]

@contract("C23", DERIVE, prove="bounded: histories of edits", weight=2)
def derived_commands_are_independent(d):
    dr = Drawn(d)
    d.assume(len(of_kind(dr, K.STREAM_INPUT)) == 1 and len(of_kind(dr, K.STREAM_OUTPUT)) == 1)
    if d.bool("ids only"):
        dr.ops = [(x, k) for x, k in dr.ops if k is not None]
    c = dr.build()
    t1, t2 = any_transformer(d), any_transformer(d)
    mspec = MapperSpec(M.CUSTOM, "map", t1, True) if d.bool("custom") else MapperSpec(M.SAME_AS_SEQ, is_implemented=True)
    aspec = d.choose("aggregator", [AS.AggregatorSpecNonFunc(G.CONCATENATE, True), AS.AggregatorSpecFuncTransformer(G.CUSTOM_2_ARY, t2, True),
                                    AS.AggregatorSpecFuncTransformer(G.CUSTOM_N_ARY, t2, True), AS.AggregatorSpecFuncStringRepresentation(G.CUSTOM_2_ARY, "sort -m", True)])
    n_aux = d.int("aux", 0, 2)
    p = Parallelizer(Splitter(S.CONSEC_CHUNKS), mspec, aspec, None, n_aux)
    things = [("command", c), ("parallelizer", p)]
    snaps = [d.snap(c), d.snap(p)]
    for i in range(d.int("derived", 1, 4)):
        what = d.choose("derive", ["mapper", "aggregator", "copy", "variant"])
        if what == "mapper":
            r = d.call(p.get_actual_mapper, c, d.unique("i"), d.unique("o"), [d.unique("x") for _ in range(n_aux)])
        elif what == "aggregator":
            r = d.call(p.get_actual_aggregator, c, [d.unique("i"), d.unique("i")], d.unique("o"))
        elif what == "copy":
            r = d.call(CommandInvocationWithIOVars, c.cmd_name, c.flag_option_list, c.operand_list, c.implicit_use_of_streaming_input, c.implicit_use_of_streaming_output, c.access_map)
        else:
            r = d.call(PM.make_parallelizer_round_robin_with_unwrap_from_other, p)
        d.check("origin unchanged by deriving", d.same(c, snaps[0]) and d.same(p, snaps[1]), lambda: (what, cmd_view(c)))
        if not r.raised and r.value is not None:
            things.append((what, r.value))
            snaps.append(d.snap(r.value))
    commands = [i for i, (w, x) in enumerate(things) if isinstance(x, CommandInvocationWithIOVars)]
    descriptions = [i for i, (w, x) in enumerate(things) if isinstance(x, Parallelizer)]
    for step in range(d.int("steps", 1, 4)):
        if d.bool("edit_command"):
            k = commands[d.int("target", 0, 100) % len(commands)]
            d.call(edit, d, things[k][1])
        else:
            k = descriptions[d.int("target", 0, 100) % len(descriptions)]
            d.call(edit_description, d, things[k][1])
        for j in range(len(things)):
            if j != k:
                d.check("the others unchanged", d.same(things[j][1], snaps[j]), lambda: (things[k][0], "edited", things[j][0], "changed"))
        snaps[k] = d.snap(things[k][1])

def edit_description(d, p):
    what = d.choose("edit", ["splitter", "mapper implemented", "mapper name", "mapper transformer", "aggregator implemented", "aggregator transformer", "aux", "mapper"])
    def lists(t):
        for a in ("list_to_add", "list_to_remove", "list_filter", "list_custom"):
            if hasattr(t, a):
                getattr(t, a).append("spoiled")
    if what == "splitter":
        p.splitter.kind = S.INDIV_FILES
    elif what == "mapper implemented":
        p.core_mapper_spec.is_implemented = not p.core_mapper_spec.is_implemented
    elif what == "mapper name":
        p.core_mapper_spec.spec_mapper_cmd_name = "spoiled"
    elif what == "mapper transformer":
        lists(p.core_mapper_spec.flag_option_list_transformer)
    elif what == "aggregator implemented":
        p.core_aggregator_spec.is_implemented = not p.core_aggregator_spec.is_implemented
    elif what == "aggregator transformer":
        lists(getattr(p.core_aggregator_spec, "flag_option_list_transformer", None))
    elif what == "aux":
        p.info_mapper_aggregator += 1
    else:
        p.core_mapper_spec = None

@contract("C23", DERIVE + ["annotation_generation.datatypes.ParallelizabilityInfo.*"], prove="bounded: histories of edits", weight=0.5)
def variants_are_independent(d):
    stored = d.list("p", any_parallelizer, min=1, max=3)
    info = ParallelizabilityInfo(list(stored), False, True)
    before = d.snap(stored)
    inferred = info.get_inferred_parallelizer_list()
    extra = inferred[len(stored):]
    snaps = [d.snap(x) for x in extra]
    for step in range(d.int("steps", 1, 3)):
        if len(extra) > 0 and d.bool("edit_variant"):
            k = d.int("which", 0, 100) % len(extra)
            d.call(edit_description, d, extra[k])
            d.check("stored ones unchanged", d.same(stored, before))
            for j in range(len(extra)):
                if j != k:
                    d.check("other variants unchanged", d.same(extra[j], snaps[j]))
            snaps[k] = d.snap(extra[k])
        else:
            k = d.int("which", 0, 100) % len(stored)
            d.call(edit_description, d, stored[k])
            d.check("variants unchanged", all(d.same(x, y) for x, y in zip(extra, snaps)))
            before = d.snap(stored)
        inferred.append("spoiled")
        d.check("information unchanged by list edits", len(info.parallelizer_list) == len(stored))

# Proof of independence: what an edit of an object writes is that object's own containers (edits_stay_in_the_edited...), and deriving
# makes objects whose own containers are new (..._own_containers).  So no history of derivations and edits makes two of them meet.
def own(x):
    """The objects that edits of a command, of a description or of their lists write."""
    if isinstance(x, CommandInvocationWithIOVars):
        return [x, x.flag_option_list, x.operand_list, x.access_map]
    if isinstance(x, Parallelizer):
        return [x, x.splitter] + own(x.core_mapper_spec) + own(x.core_aggregator_spec)
    if isinstance(x, (MapperSpec, AS.AggregatorSpec)):
        return [x] + own(getattr(x, "flag_option_list_transformer", None))
    if isinstance(x, T.ChainTransformerFlagOptionList):
        return [x]
    return [x] + [getattr(x, a) for a in ("list_to_add", "list_to_remove", "list_filter", "list_custom") if hasattr(x, a)] if isinstance(x, T.TransformerFlagOptionList) else []

def apart(d, xs, ys):
    return all(not d.is_same_object(x, y) for x in xs for y in ys)

AGG_MAKERS = {"concatenate": lambda t: AS.AggregatorSpecNonFunc(G.CONCATENATE, True), "text": lambda t: AS.AggregatorSpecFuncStringRepresentation(G.CUSTOM_2_ARY, "sort -m", True),
              "two": lambda t: AS.AggregatorSpecFuncTransformer(G.CUSTOM_2_ARY, t, True), "any number": lambda t: AS.AggregatorSpecFuncTransformer(G.CUSTOM_N_ARY, t, True)}

def derived_twice(d, c, p, derive):
    """Two objects derived from c and p are apart from these, from each other, and from the lists given; nothing else changes."""
    c_before, p_before = d.snap(c), d.snap(p)
    a, given = derive()
    a_before = d.snap(a)
    given_before = d.snap(given)
    b, given_too = derive()
    d.check("origin unchanged", d.same(c, c_before), lambda: (cmd_view(c), cmd_view(c_before)))
    d.check("description unchanged", d.same(p, p_before))
    d.check("first one unchanged by deriving the second", d.same(a, a_before))
    d.check("given lists unchanged", d.same(given, given_before))
    origin = own(c) + own(p) + given + given_too
    d.check("apart from the origin", apart(d, own(a), origin) and apart(d, own(b), origin))
    d.check("apart from each other", apart(d, own(a), own(b)))

MAPPERS = ["same"] + ["custom, " + k for k in ["none"] + TKINDS]
@contract("C23", DERIVE, params=[(k, a) for k in MAPPER_PARAMS + BY_NAME for a in ("no auxiliaries", "auxiliaries") if k not in BY_NAME or a == "auxiliaries"], weight=0.2)
def mappers_own_their_containers(d, param):
    kind, auxiliaries = param
    spec, named, f, keeps = mapper_spec(d, kind)
    dr = Drawn(d, keeps, ids_only=auxiliaries == "auxiliaries")
    if keeps == "some":
        spec.flag_option_list_transformer.kept = dr.kept
    d.assume(len(of_kind(dr, K.STREAM_INPUT)) == 1 and len(of_kind(dr, K.STREAM_OUTPUT)) == 1)
    c = dr.build()
    n = 0 if auxiliaries == "no auxiliaries" else d.int("n_aux", 1, near=3)
    p = Parallelizer(Splitter(S.CONSEC_CHUNKS), spec, AS.AggregatorSpecNonFunc(G.CONCATENATE, True), None, n)
    def derive():
        aux = d.unique_list("aux", n)
        m = p.get_actual_mapper(c, d.unique("new_in"), d.unique("new_out"), aux)
        return m, [aux]
    derived_twice(d, c, p, derive)

@contract("C23", DERIVE, params=[(a, k) for a in sorted(AGG_MAKERS) for k in (["none"] + TKINDS if a in ("two", "any number") else ["none"])], weight=0.2)
def aggregators_own_their_containers(d, param):
    how, kind = param
    t = drawn_transformer(d, kind)[0]
    dr = Drawn(d)
    d.assume(dr.inp[1] in (None, K.STREAM_INPUT) and dr.out[1] in (None, K.STREAM_OUTPUT))
    c = dr.build()
    p = Parallelizer(Splitter(S.CONSEC_CHUNKS), MapperSpec(M.SAME_AS_SEQ, is_implemented=True), AGG_MAKERS[how](t), None, 0)
    def derive():
        inputs = new_ids(d, "inputs", 2 if how in ("two", "text") else None)
        return p.get_actual_aggregator(c, inputs, d.unique("output")), [inputs]
    derived_twice(d, c, p, derive)

@contract("C23", DERIVE, weight=0.2)
def commands_own_their_containers(d):
    """Built from lists that the caller keeps, or from another command."""
    dr = Drawn(d)
    p = Parallelizer(Splitter(S.CONSEC_CHUNKS), MapperSpec(M.SAME_AS_SEQ, is_implemented=True), AS.AggregatorSpecNonFunc(G.CONCATENATE, True), None, 0)
    fol, ops, acc = dr.flag_option_list(), [x for x, k in dr.ops], dr.access()
    c = CommandInvocationWithIOVars(dr.name, fol, ops, dr.inp[0], dr.out[0], acc)
    d.check("apart from the lists it was built from", apart(d, own(c), [fol, ops, acc]))
    def derive():
        return CommandInvocationWithIOVars(c.cmd_name, c.flag_option_list, c.operand_list, c.implicit_use_of_streaming_input, c.implicit_use_of_streaming_output, c.access_map), [fol, ops, acc]
    derived_twice(d, c, p, derive)

@contract("C23", DERIVE + ["annotation_generation.datatypes.ParallelizabilityInfo.*"], params=[(k, a, t) for k in MAPPERS for a in sorted(AGG_MAKERS) for t in (["none"] + TKINDS if a in ("two", "any number") else ["none"])], weight=0.05)
def variants_own_their_containers(d, param):
    kind, how, transformer = param
    p = Parallelizer(Splitter(S.CONSEC_CHUNKS), mapper_spec(d, kind)[0], AGG_MAKERS[how](drawn_transformer(d, transformer)[0]), None, d.int("n_aux", 0, near=3))
    c = CommandInvocationWithIOVars("cmd", [], [], None, None, {})
    derived_twice(d, c, p, lambda: (PM.make_parallelizer_round_robin_with_unwrap_from_other(p), []))
    info = ParallelizabilityInfo([p], False, True)
    before = d.snap(p)
    inferred = info.get_inferred_parallelizer_list()
    d.check("stored one unchanged by inferring", d.same(p, before) and d.is_same_object(info.parallelizer_list[0], p) and len(info.parallelizer_list) == 1)
    d.check("inferred variants apart", all(d.is_same_object(x, p) or apart(d, own(x), own(p)) for x in inferred))
    d.check("own list", apart(d, [inferred], [info.parallelizer_list]))

EDITS = ["substitute", "substitute others", "remove inputs", "remove outputs", "replace", "append flag", "clear flags", "append operand", "reverse operands", "clear operands", "access", "forget", "rename"]
@contract("C23", IOV, params=EDITS, weight=0.2)
def edits_stay_in_the_edited_command(d, what):
    dr = Drawn(d)
    c = dr.build()
    # another command, with the very same entries in containers of its own, and a description
    e = CommandInvocationWithIOVars(dr.name, [], [], None, None, {})
    e.flag_option_list, e.operand_list, e.access_map = list(c.flag_option_list), list(c.operand_list), dict(c.access_map)
    p = Parallelizer(Splitter(S.CONSEC_CHUNKS), MapperSpec(M.CUSTOM, "x", T.make_transformer_custom([Flag("-a")]), True), AS.AggregatorSpecNonFunc(G.CONCATENATE, True), None, 0)
    e_before, p_before = d.snap(e), d.snap(p)
    given = [c.flag_option_list, c.operand_list, c.access_map]
    lists = []
    if what == "substitute":
        lists = [d.unique_list("new_in", len(of_kind(dr, K.STREAM_INPUT))), d.unique_list("new_out", len(of_kind(dr, K.STREAM_OUTPUT)))]
        d.call(c.substitute_inputs_and_outputs_in_cmd_invocation, lists[0], lists[1])
    elif what == "substitute others":
        lists = [new_ids(d, "new_in"), new_ids(d, "new_out")]
        d.call(c.substitute_inputs_and_outputs_in_cmd_invocation, lists[0], lists[1])
    elif what == "replace":
        ids = [i for i, k in dr.ids()]
        d.assume(len(ids) > 0)
        d.call(c.replace_var, ids[d.int("which", 0, len(ids) - 1)], d.unique("new"))
    elif what == "remove inputs":
        d.call(c.remove_streaming_inputs)
    elif what == "remove outputs":
        d.call(c.remove_streaming_outputs)
    else:
        edit_list(d, c, what)
    d.check("other command unchanged", d.same(e, e_before), lambda: (cmd_view(e), cmd_view(e_before)))
    d.check("description unchanged", d.same(p, p_before))
    d.check("still apart", apart(d, own(c), own(e) + own(p) + lists))

def edit_list(d, x, what):
    if what == "append flag":
        x.flag_option_list.append(Flag("-spoiled"))
    elif what == "clear flags":
        x.flag_option_list.clear()
    elif what == "append operand":
        x.operand_list.append(ArgStringType("spoiled"))
    elif what == "reverse operands":
        x.operand_list.reverse()
    elif what == "clear operands":
        x.operand_list.clear()
    elif what == "access":
        x.access_map[d.unique("new")] = AccessKind(K.OTHER_INPUT)
    elif what == "forget":
        x.access_map.clear()
    else:
        x.cmd_name = "spoiled"
