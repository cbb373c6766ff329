"""C07: requests do not influence each other."""
import os, subprocess, sys, json
from specs.common import *
from dv.harness import show
from pash_annotations.annotation_generation.AnnotationGeneration import (get_input_output_info_from_cmd_invocation as io_info,
                                                                         get_parallelizability_info_from_cmd_invocation as par_info)
from pash_annotations.parser.parser import parse
from pash_annotations.datatypes.AccessKind import make_stream_input, make_stream_output

LINES = ["grep -c -n pat a b", "grep -l pat", "grep -n -b x f", "grep pat", "sort -rn a", "sort -k 2 -o out a", "sort", "uniq -c", "uniq a b", "tr -d '\\n'", "tr -s a b",
         "tr a b", "cat a -", "cat", "bigrams_aux a", "alt_bigrams_aux", "sed -e s/a/b/ f", "sed d", "xargs rm", "cut -d , -f 1 a", "mv a b", "mv -t d a b", "rm -rf x",
         "tee a b", "comm -12 a b", "head -n 3 f", "tail -f x", "wc -l", "awk -f prog a", "set_diff a", "custom_sort -r", "unknown x y", "export -p", "diff a b", "mkfifo p",
         "grep -rin pat .", "test_one", "test_two a", "col -bx", "seq 1 2 3"]
FUNCS = ["parser.parser.parse", "annotation_generation.AnnotationGeneration.*", "annotation_generation.datatypes.ParallelizabilityInfo.*",
         "annotation_generation.datatypes.InputOutputInfo.*"]

def io_vars_of(inv, info):
    """The command with numbered streams, as a user builds it from the two results."""
    io = info.apply_input_output_info_to_command_invocation(inv)
    acc = {}
    def number(x):
        if isinstance(x, ArgStringType):
            return x
        n = len(acc)
        acc[n] = x.get_access()
        return n
    fol = [OptionWithIOVar(x.get_name(), number(x.get_arg())) if isinstance(x, OptionWithIO) else x for x in io.flag_option_list]
    ops = [number(x) for x in io.operand_list]
    i = None if io.implicit_use_of_streaming_input is None else number(io.implicit_use_of_streaming_input)
    o = None if io.implicit_use_of_streaming_output is None else number(io.implicit_use_of_streaming_output)
    return CommandInvocationWithIOVars(io.cmd_name, fol, ops, i, o, acc)

def spoil(x, depth=0):
    """Edit everything mutable a caller gets hold of."""
    if isinstance(x, list):
        for e in list(x):
            spoil(e, depth + 1)
        x.append("spoiled")
        if len(x) > 1:
            x.reverse()
    elif isinstance(x, dict):
        for e in list(x.values()):
            spoil(e, depth + 1)
        x["spoiled"] = "spoiled"
    elif isinstance(x, tuple):
        for e in x:
            spoil(e, depth + 1)
    elif hasattr(x, "__dict__") and not isinstance(x, type) and type(x).__module__.startswith("pash_annotations") and not hasattr(type(x), "__members__"):
        for k, e in list(vars(x).items()):
            spoil(e, depth + 1)
            if isinstance(e, str) or e is None:
                setattr(x, k, "spoiled")
            elif isinstance(e, bool):
                setattr(x, k, not e)

def observe(line):
    inv = parse(line)
    return inv, io_info(inv), par_info(inv)

def operation(d):
    """One step of a history."""
    inv, a, b = observe(d.str("line", LINES, free=False))
    what = d.choose("what", ["nothing", "spoil all", "spoil command", "infer", "derive", "repeat"])
    if what == "infer" and b is not None:
        b.get_inferred_parallelizer_list()
        spoil(b.unpack_info())
    elif what == "derive" and a is not None and b is not None:
        cmd = io_vars_of(inv, a)
        for p in b.get_inferred_parallelizer_list():
            m = d.call(p.get_actual_mapper, cmd, 100, 101, [102, 103] if p.info_mapper_aggregator == 2 else [])
            g = d.call(p.get_actual_aggregator, cmd, [100, 101], 103)
            spoil(m.value)
            spoil(g.value)
        spoil(cmd)
    elif what == "spoil command":
        spoil(inv)
    elif what == "spoil all":
        spoil(inv)
        spoil(a)
        spoil(b)
    elif what == "repeat":
        io_info(inv)
        par_info(inv)

@contract("C07", FUNCS, prove="bounded: histories of requests; the two contracts at the end are the step of the induction over histories", weight=0.5)
def repeated_requests(d):
    line = d.str("observed", LINES, free=False)
    inv, a, b = observe(line)
    first = d.snap((inv, a, b))
    how = d.choose("edits", ["none", "all", "lists"])
    if how == "all":
        spoil((inv, a, b))
    elif how == "lists":
        for x in (inv.flag_option_list, inv.operand_list, b.parallelizer_list if b is not None else []):
            x.append("spoiled")
    d.list("history", operation, max=6)
    second = observe(line)
    d.check("same command", d.same(second[0], first[0]), lambda: (line, show(second[0]), show(first[0])))
    d.check("same input-output information", d.same(second[1], first[1]), lambda: (line, show(second[1]), show(first[1])))
    d.check("same parallelizability information", d.same(second[2], first[2]), lambda: (line, show(second[2]), show(first[2])))

@contract("C07", FUNCS, prove="bounded: histories of requests; the two contracts at the end are the step of the induction over histories")
def same_invocation_twice(d):
    """Two requests for one command object, and for an equal copy of it."""
    inv = parse(d.str("line", LINES, free=False))
    copy = d.snap(inv)
    a, b = io_info(inv), par_info(inv)
    sa, sb = d.snap(a), d.snap(b)
    if d.bool("edit"):
        spoil(a)
        spoil(b)
    d.check("again", d.same(io_info(inv), sa) and d.same(par_info(inv), sb), lambda: show(inv))
    d.check("equal copy", d.same(io_info(copy), sa) and d.same(par_info(copy), sb), lambda: show(inv))

@contract("C07", FUNCS, prove="bounded: histories of requests; the two contracts at the end are the step of the induction over histories", weight=0.5)
def earlier_results_stay(d):
    """A result that a caller holds is not changed by later requests, nor by edits of their results."""
    line, other = d.str("held", LINES, free=False), d.str("later", LINES, free=False)
    held = observe(line)
    variants = held[2].get_inferred_parallelizer_list() if held[2] is not None else None
    first = d.snap((held, variants))
    if d.bool("same line"):
        other = line
    later = observe(other)
    d.check("held result unchanged by a later request", d.same((held, variants), first), lambda: (line, other, show(held), show(first)))
    for x in (later[0].flag_option_list, later[0].operand_list, later[2].parallelizer_list if later[2] is not None else [],
              later[1].operand_list_typer if later[1] is not None else []):
        x.append("spoiled")
    d.check("held result unchanged by extending later lists", d.same((held, variants), first), lambda: (line, other, show(held), show(first)))

_EXPECTED = {}
def in_fresh_process(lines):
    code = ("import sys, json; sys.path.insert(0, %r); from specs.c07_history import observe; from dv.harness import show\n"
            "print(json.dumps([show(observe(l)) for l in json.load(sys.stdin)]))" % os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    out = subprocess.run([sys.executable, "-B", "-c", code], input=json.dumps(lines), capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO))
    return json.loads(out.stdout)

@contract("C07", FUNCS, prove="bounded: histories of requests; the two contracts at the end are the step of the induction over histories", weight=0.01, name="fresh_process")
def fresh_process(d):
    """After a history of requests and edits, a request answers as in a new process."""
    line = d.str("observed", LINES, free=False)
    if line not in _EXPECTED:
        _EXPECTED[line] = in_fresh_process([line])[0]
    d.list("history", operation, max=8)
    d.check("as in a new process", show(observe(line)) == _EXPECTED[line], lambda: (line, show(observe(line)), _EXPECTED[line]))

# The proof: a request only reads what existed before it (the verifier accepts no write to an object of a module or class), its result
# consists of new containers that nothing else has, and asking again after every list of the first result was edited gives the same.
# So what a request reads is the same at any point of any history of requests and edits.
def edit_lists(x):
    """Every list of the result loses its entries or gets others."""
    if isinstance(x, CommandInvocationInitial):
        x.flag_option_list.append(Flag("-spoiled"))
        x.operand_list.clear()
        x.cmd_name = "spoiled"

HERE = [n for n in sorted(TABLES) if flag_spellings(n) or option_spellings(n)]

@contract("C07", FUNCS, params=HERE, weight=0.05)
def parsing_reads_only_the_line(d, cmd):
    words = d.list("words", lambda e: e.str("w", sorted(flag_spellings(cmd)) + sorted(option_spellings(cmd)) + ["a", "-", "--"]))
    line = d.words_line([cmd] + words)
    first = parse(line)
    snap = d.snap(first)
    d.check("made anew", d.made_anew(first))
    edit_lists(first)
    second = parse(line)
    d.check("same command again", d.same(second, snap), lambda: (line, show(second), show(snap)))
    d.check("apart from the first", d.apart(second, first))
    edit_lists(second)

def after_annotating(a, b, inv):
    """What a user does with the two results, and then edits of all lists."""
    if a is not None:
        a.apply_input_output_info_to_command_invocation(inv)
        a.operand_list_typer.clear()
        a.flagoption_list_typer.append((None, None))
        a.implicit_use_of_streaming_input = None
    if b is not None:
        b.get_inferred_parallelizer_list()
        b.unpack_info()
        for p in b.parallelizer_list:
            p.core_mapper_spec.is_implemented = False
            p.core_aggregator_spec.is_implemented = False
        b.parallelizer_list.append("spoiled")
        b.round_robin_compatible_with_cat = True

@contract("C07", FUNCS, params=COMMANDS + ["no_such_command"], weight=0.05)
def annotating_reads_only_the_command(d, cmd):
    inv = invocation(d, cmd)
    before = d.snap(inv)
    a, b = io_info(inv), par_info(inv)
    sa, sb = d.snap(a), d.snap(b)
    d.check("made anew", d.made_anew(a) and d.made_anew(b))
    d.check("apart from the command", d.apart(a, inv) and d.apart(b, inv))
    after_annotating(a, b, inv)
    d.check("command unchanged", d.same(inv, before))
    again, par_again = io_info(inv), par_info(inv)
    d.check("same input-output information", d.same(again, sa), lambda: (show(inv), show(again), show(sa)))
    d.check("same parallelizability information", d.same(par_again, sb), lambda: (show(inv), show(par_again), show(sb)))
    d.check("apart from the first ones", d.apart(again, a) and d.apart(par_again, b))
