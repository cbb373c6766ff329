"""C06-C12: requests for annotations and input-output information."""
from specs.common import *
from pash_annotations.annotation_generation.AnnotationGeneration import (get_input_output_info_from_cmd_invocation as io_info,
                                                                         get_parallelizability_info_from_cmd_invocation as par_info)
from pash_annotations.annotation_generation.datatypes.InputOutputInfo import InputOutputInfo
from pash_annotations.annotation_generation.datatypes.ParallelizabilityInfo import ParallelizabilityInfo
from pash_annotations.parser.parser import parse

REQ = ["annotation_generation.AnnotationGeneration.get_input_output_info_from_cmd_invocation",
       "annotation_generation.AnnotationGeneration.get_parallelizability_info_from_cmd_invocation", "annotation_generation.AnnotationGeneration.str_to_class"]
GEN = ["annotation_generation.annotation_generators.InputOutputInfoGenerator_Interface.*", "annotation_generation.annotation_generators.Generator_Interface.*",
       "annotation_generation.annotation_generators.InputOutputInfoGenerator<Cmd>.generate_info", "annotation_generation.datatypes.InputOutputInfo.*"]

WITH_IO = [c for c in COMMANDS if c not in ("bigram_aux_map", "bigram_aux_reduce")]
WITH_PAR = ["alt_bigrams_aux", "bigrams_aux", "col", "custom_sort", "custom_tr", "cut", "grep", "sed", "set_diff", "sort", "test_one", "test_two",
            "tr", "uniq", "xargs"]
MATTER = ["-e", "-f", "-E", "-o", "-q", "-t", "-c", "-d", "-s", "--files0-from", "--expression", "--file", "--output"]

# ------------------------------------------------------------------ C06
@contract("C06", REQ + GEN, params=COMMANDS + ["ls", "export", "Cat", "no such command", ""])
def request_any(d, cmd):
    fol = d.list("fo", lambda e: flag_or_option(e, MATTER + flag_names(cmd), MATTER + option_names(cmd), OPERANDS))
    ops = d.list("op", lambda e: Operand(e.str("name", OPERANDS)))
    inv = CommandInvocationInitial(cmd, fol, ops)
    before = d.snap(inv)
    a = d.call(io_info, inv)
    d.check("no error from input-output information", not a.raised, lambda: a.exc)
    d.check("information or nothing", a.value is None or isinstance(a.value, InputOutputInfo))
    d.check("command unchanged by input-output request", d.same(inv, before))
    b = d.call(par_info, inv)
    d.check("no error from parallelizability information", not b.raised, lambda: b.exc)
    d.check("parallelizability or nothing", b.value is None or isinstance(b.value, ParallelizabilityInfo))
    d.check("command unchanged by parallelizability request", d.same(inv, before))
    if cmd not in WITH_IO:
        d.check("no input-output annotation", a.value is None)
    if cmd not in WITH_PAR:
        d.check("no parallelizability annotation", b.value is None)

@contract("C06", REQ)
def request_unknown(d):
    """A command name that is not annotated."""
    cmd = d.str("cmd", ["ls", "foo", "Cat", "CAT", " cat", "cat ", "", "Interface", "Generator_Interface", "None", "Grep", "os"] + [c + "x" for c in COMMANDS])
    d.assume(cmd not in COMMANDS)
    inv = CommandInvocationInitial(cmd, d.list("fo", lambda e: flag_or_option(e, MATTER, MATTER, OPERANDS)),
                                   d.list("op", lambda e: Operand(e.str("name", OPERANDS))))
    before = d.snap(inv)
    a = d.call(io_info, inv)
    b = d.call(par_info, inv)
    d.check("nothing", not a.raised and a.value is None and not b.raised and b.value is None, lambda: (cmd, a.exc, b.exc))
    d.check("command unchanged", d.same(inv, before))

# ------------------------------------------------------------------ C08, C09
def has(inv, names):
    return any(x.get_name() in names for x in inv.flag_option_list)

def expected_roles(inv):
    """None if the invocation is rejected, otherwise the role of every operand (None: string)."""
    cmd = inv.cmd_name
    n = len(inv.operand_list)
    if cmd in ("cat", "head", "tail", "cut", "sort", "custom_sort", "diff"):
        return [K.STREAM_INPUT for _ in inv.operand_list]
    if cmd == "comm":
        return [K.STREAM_INPUT for _ in inv.operand_list] if n == 2 else None
    if cmd == "wc":
        return None if has(inv, ["--files0-from"]) else [K.STREAM_INPUT for _ in inv.operand_list]
    if cmd in ("grep", "sed", "awk"):
        if has(inv, ["-e", "-f", "-E"] if cmd == "awk" else ["-e", "-f"]):
            return [K.STREAM_INPUT for _ in inv.operand_list]
        return None if n == 0 else [None] + [K.STREAM_INPUT for _ in inv.operand_list[1:]]
    if cmd in ("tr", "custom_tr", "seq", "xargs"):
        return [None for _ in inv.operand_list]
    if cmd == "uniq":
        return None if n > 2 else [K.STREAM_INPUT, K.STREAM_OUTPUT][:n]
    if cmd == "tee":
        return [K.STREAM_OUTPUT for _ in inv.operand_list]
    if cmd in ("rm", "mkfifo"):
        return [K.OTHER_OUTPUT for _ in inv.operand_list]
    if cmd == "set_diff":
        return [K.CONFIG_INPUT] if n == 1 else None
    if cmd == "mv":
        ts = len([x for x in inv.flag_option_list if x.get_name() == "-t"])
        if ts == 1:
            return [K.OTHER_INPUT for _ in inv.operand_list]
        if ts > 1 or n == 0:
            return None
        return [K.OTHER_INPUT for _ in inv.operand_list[:-1]] + [K.OTHER_OUTPUT]
    return None

ROLE_COMMANDS = ["cat", "head", "tail", "cut", "sort", "custom_sort", "diff", "comm", "wc", "grep", "sed", "awk", "tr", "custom_tr", "seq", "xargs", "uniq",
                 "tee", "rm", "mkfifo", "set_diff", "mv"]

@contract("C08", GEN, params=ROLE_COMMANDS)
def operand_roles(d, cmd):
    inv = invocation(d, cmd, MATTER)
    roles = expected_roles(inv)
    info = io_info(inv)
    if roles is None:
        d.check("rejected", info is None)
    else:
        d.check("accepted", info is not None)
        io = info.apply_input_output_info_to_command_invocation(inv)
        d.check("one argument per operand", len(io.operand_list) == len(inv.operand_list))
        d.check("roles", all(arg_view(x) == expected_arg(o.get_name(), r) for x, o, r in zip(io.operand_list, inv.operand_list, roles)),
                lambda: (inv.operand_list, [arg_view(x) for x in io.operand_list], roles))

def reads_stdin(inv):
    cmd = inv.cmd_name
    n = len(inv.operand_list)
    if cmd in ("cat", "head", "tail", "cut", "wc", "uniq"):
        return n == 0
    if cmd in ("grep", "sed", "awk"):
        return n == 0 if has(inv, ["-e", "-f", "-E"] if cmd == "awk" else ["-e", "-f"]) else n == 1
    if cmd in ("sort", "custom_sort"):
        return n == 0 and not has(inv, ["--files0-from"])
    return cmd in ("tr", "custom_tr", "tee", "xargs", "col", "set_diff")

def writes_stdout(inv):
    cmd = inv.cmd_name
    if cmd in ("rm", "mv", "mkfifo"):
        return False
    if cmd in ("sort", "custom_sort"):
        return not has(inv, ["-o"])
    if cmd == "grep":
        return not has(inv, ["-q"])
    if cmd == "uniq":
        return len(inv.operand_list) < 2
    return True

@contract("C09", GEN, params=ROLE_COMMANDS + ["col"])
def implicit_streams(d, cmd):
    inv = invocation(d, cmd, MATTER)
    info = io_info(inv)
    if cmd == "col":
        d.check("accepted", info is not None)
    else:
        d.check("accepted or rejected", (info is None) == (expected_roles(inv) is None))
    if info is not None:
        io = info.apply_input_output_info_to_command_invocation(inv)
        d.check("standard input", std_view(io.implicit_use_of_streaming_input) == (STDIN if reads_stdin(inv) else None),
                lambda: (inv.flag_option_list, inv.operand_list))
        d.check("standard output", std_view(io.implicit_use_of_streaming_output) == (STDOUT if writes_stdout(inv) else None),
                lambda: (inv.flag_option_list, inv.operand_list))

# ------------------------------------------------------------------ C10
def text_of(x):
    """The text an argument had in the command."""
    v = arg_view(x)
    return "-" if v[0] == "std" else v[1]

@contract("C10", GEN + ["annotation_generation.datatypes.InputOutputInfo.apply_input_output_info_to_command_invocation"], params=WITH_IO)
def applying_preserves(d, cmd):
    inv = invocation(d, cmd, MATTER)
    info = io_info(inv)
    if info is None:
        return
    before, info_before = d.snap(inv), d.snap(info)
    io = info.apply_input_output_info_to_command_invocation(inv)
    d.check("name", io.cmd_name == inv.cmd_name)
    d.check("as many flags and options", len(io.flag_option_list) == len(inv.flag_option_list))
    d.check("flags stay", all(d.same(x, y) for x, y in zip(io.flag_option_list, inv.flag_option_list) if isinstance(y, Flag)))
    d.check("options stay", all(isinstance(x, OptionWithIO) and x.get_name() == y.get_name() and text_of(x.get_arg()) == y.get_arg()
                                for x, y in zip(io.flag_option_list, inv.flag_option_list) if isinstance(y, Option)),
            lambda: (inv.flag_option_list, io.flag_option_list))
    d.check("one argument per operand", len(io.operand_list) == len(inv.operand_list))
    d.check("operands stay", all(text_of(x) == y.get_name() for x, y in zip(io.operand_list, inv.operand_list)), lambda: inv.operand_list)
    d.check("dash is a standard stream in a file role only", all(arg_view(x) == expected_arg(y.get_name(), arg_view(x)[2]) for x, y in zip(io.operand_list, inv.operand_list)),
            lambda: [arg_view(x) for x in io.operand_list])
    d.check("implicit input", d.same(io.implicit_use_of_streaming_input, info_before.implicit_use_of_streaming_input))
    d.check("implicit output", d.same(io.implicit_use_of_streaming_output, info_before.implicit_use_of_streaming_output))
    d.check("command unchanged", d.same(inv, before))
    again = info.apply_input_output_info_to_command_invocation(inv)
    d.check("applying again gives the same", d.same(again, io))

@contract("C10", ["annotation_generation.datatypes.InputOutputInfo.apply_typer_to_arg"], params=["mv", "tee", "cat", "tr", "rm", "set_diff", "uniq"])
def dash_and_names(d, cmd):
    """Through commands with every role: mv (other input, other output), tee, cat, tr."""
    ops = d.list("op", lambda e: Operand(e.str("name", ["-", "--", "a", "", "- ", "-x", "stdin"])))
    inv = CommandInvocationInitial(cmd, [], ops)
    info = io_info(inv)
    if info is not None:
        io = info.apply_input_output_info_to_command_invocation(inv)
        roles = expected_roles(inv)
        d.check("arguments", [arg_view(x) for x in io.operand_list] == [expected_arg(o.get_name(), r) for o, r in zip(ops, roles)],
                lambda: [arg_view(x) for x in io.operand_list])

# ------------------------------------------------------------------ C11
@contract("C11", GEN, params=[c for c in WITH_IO if option_names(c)])
def option_access(d, cmd):
    inv = invocation(d, cmd, option_names(cmd))
    kinds = option_kinds(cmd)
    info = io_info(inv)
    if info is None:
        return
    io = info.apply_input_output_info_to_command_invocation(inv)
    d.check("as many", len(io.flag_option_list) == len(inv.flag_option_list))
    d.check("flags have no value", all(d.same(x, y) for x, y in zip(io.flag_option_list, inv.flag_option_list) if isinstance(y, Flag)))
    d.check("access of the value", all(isinstance(x, OptionWithIO) and arg_view(x.get_arg()) == expected_arg(y.get_arg(), kinds[y.get_name()])
                                       for x, y in zip(io.flag_option_list, inv.flag_option_list) if isinstance(y, Option)),
            lambda: [(y.get_name(), arg_view(x.get_arg())) for x, y in zip(io.flag_option_list, inv.flag_option_list) if isinstance(y, Option)])

# ------------------------------------------------------------------ C12
@contract("C12", ["annotation_generation.datatypes.InputOutputInfo.has_other_outputs"] + GEN, params=WITH_IO)
def other_outputs_of_info(d, cmd):
    inv = invocation(d, cmd, ["-t", "-T", "-o"])
    info = io_info(inv)
    if info is None:
        return
    io = info.apply_input_output_info_to_command_invocation(inv)
    expected = any(arg_view(x)[2] == K.OTHER_OUTPUT for x in io.operand_list) or \
        any(isinstance(x, OptionWithIO) and arg_view(x.get_arg())[2] == K.OTHER_OUTPUT for x in io.flag_option_list)
    d.check("has other outputs", info.has_other_outputs() == expected, lambda: (inv.flag_option_list, inv.operand_list))
    d.check("asking again", info.has_other_outputs() == expected)
