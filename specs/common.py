"""Input domains shared by the contracts, and views of program values that do not depend on representation details."""
import json
import os
from dv.harness import contract, REPO
from pash_annotations.datatypes.BasicDatatypes import (Flag, Option, Operand, FileName, StdDescriptor, StdDescriptorEnum, ArgStringType)
from pash_annotations.datatypes.BasicDatatypesWithIO import (FileNameWithIOInfo, StdDescriptorWithIOInfo, OptionWithIO)
from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
from pash_annotations.datatypes.AccessKind import AccessKind, AccessKindEnum
from pash_annotations.datatypes.CommandInvocationInitial import CommandInvocationInitial
from pash_annotations.datatypes.CommandInvocationWithIO import CommandInvocationWithIO
from pash_annotations.datatypes.CommandInvocationWithIOVars import CommandInvocationWithIOVars

DATA = os.path.join(REPO, "pash_annotations/parser/command_flag_option_info/data")
K = AccessKindEnum

def tables():
    """The shipped tables, read from their files: name -> contents."""
    out = {}
    for f in sorted(os.listdir(DATA)):
        if f.endswith(".json"):
            out[f[:-5]] = json.load(open(os.path.join(DATA, f)))
    return out

TABLES = tables()
EMPTY_TABLE = {"flag": [], "option": []}

def table(cmd):
    return TABLES.get(cmd, EMPTY_TABLE)

def flag_spellings(cmd):
    """spelling -> main spelling"""
    return {s: e[0] for e in table(cmd)["flag"] if isinstance(e, list) for s in e}

def option_spellings(cmd):
    return {s: e[0] for e in table(cmd)["option"] for s in e[:-1]}

def option_kinds(cmd):
    """main spelling -> None (a string) or the access kind of the file"""
    out = {}
    for e in table(cmd)["option"]:
        t = e[-1]
        if isinstance(t, list) and t[0] in ("FILE", "DIR", "DIRECTORY"):
            out[e[0]] = AccessKindEnum[t[1]]
        else:
            out[e[0]] = None
    return out

def flag_names(cmd):
    return sorted(set(flag_spellings(cmd).values()))

def option_names(cmd):
    return sorted(option_kinds(cmd))

COMMANDS = ["alt_bigrams_aux", "alt_bigram_aux_reduce", "awk", "bigrams_aux", "bigram_aux_map", "bigram_aux_reduce", "cat", "col",
            "comm", "custom_sort", "custom_tr", "cut", "diff", "grep", "head", "mkfifo", "mv", "rm", "sed", "set_diff", "seq", "sort",
            "tail", "tee", "test_one", "test_two", "tr", "uniq", "wc", "xargs"]
OPERANDS = ["a", "-", "file", "s/a/b/", "d", "q", "-n", "\\n", "\\0", "x\\ny", "", "1", "a b"]

# ------------------------------------------------------------------ domains
def flag_or_option(d, flags, options, values, extra_options=True):
    """Flags may have any name; options only those given (all names if extra_options)."""
    if len(options) == 0 and not extra_options:
        return Flag(d.str("name", flags))
    if d.bool("is_flag"):
        return Flag(d.str("name", flags))
    return Option(d.str("name", options, free=extra_options), d.str("value", values))

def names_for(cmd, names):
    """A list of flag names: the ones the contract is about first, then those of the table."""
    return list(names) * 3 + flag_names(cmd)

def invocation(d, cmd, interesting=(), any_option=False, max_operands=None, min_operands=0):
    """A command as parse could return it: flags of any name, options of the table."""
    opts = option_names(cmd)
    fs = list(interesting) * 2 + flag_names(cmd)
    os_ = [o for o in interesting if o in opts] * 4 + opts
    fol = d.list("fo", lambda e: flag_or_option(e, fs, os_, OPERANDS, any_option))
    ops = d.list("op", lambda e: Operand(e.str("name", OPERANDS)), max=max_operands, min=min_operands)
    return CommandInvocationInitial(cmd, fol, ops)

def any_access(d):
    return AccessKind(d.enum("access", AccessKindEnum))

# ------------------------------------------------------------------ views
def arg_view(x):
    """An argument of a command with IO information: what it is, its text, its access."""
    if isinstance(x, ArgStringType):
        return ("string", x.get_name(), None)
    if isinstance(x, FileNameWithIOInfo):
        return ("file", x.get_name(), x.get_access().kind)
    if isinstance(x, StdDescriptorWithIOInfo):
        return ("std", x.get_type(), x.get_access().kind)
    return ("other", x, None)

def std_view(x):
    if x is None:
        return None
    return arg_view(x)

STDIN = ("std", StdDescriptorEnum.STDIN, AccessKindEnum.STREAM_INPUT)
STDOUT = ("std", StdDescriptorEnum.STDOUT, AccessKindEnum.STREAM_OUTPUT)

INPUT_KINDS = (K.CONFIG_INPUT, K.STREAM_INPUT, K.CONTAINER_FOR_INPUT, K.EXCLUDES_FROM_INPUT, K.OTHER_INPUT)
OUTPUT_KINDS = (K.STREAM_OUTPUT, K.OTHER_OUTPUT)

def expected_arg(text, role):
    """role: None for a string, otherwise the access kind of a file."""
    if role is None:
        return ("string", text, None)
    if text == "-":
        if role in OUTPUT_KINDS:
            return ("std", StdDescriptorEnum.STDOUT, role)
        return ("std", StdDescriptorEnum.STDIN, role)
    return ("file", text, role)
