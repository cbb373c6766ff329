#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = "pash_annotations/"
G = P + "annotation_generation/"
Z = G + "datatypes/parallelizability/"
A = G + "annotation_generators/"
T = P + "parser/command_flag_option_info/data/"
R = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Parsing keeps every word of the command line, in order",
 "For every command line that splits into at least one word, the parsed command carries the first word as its name, and writing out its flags, its options with their values and its operands in the stored order gives back exactly the remaining words, except that a spelling may have become the main synonym of its table entry and a bundle of single-letter flags may have become separate flags. No word is lost, invented, duplicated, reordered or altered. Option values and operands stay verbatim.",
 ["inputs", "configurations"], "every word list of every length, for every shipped option table and for commands without a table",
 "The parser tests run nine fixed command lines with at most eight words; the claim is over all word lists of all lengths and all 24 tables, including empty words, lone dashes, repeated flags and values that look like flags.",
 [P+"parser/parser.py", P+"parser/util_parser.py"], [("parse loop", P+"parser/parser.py: parse")], ["result of parse"])

prop("C02", "Words become flags, option values or operands exactly as the table says",
 "Reading the words after the command name from left to right, a word the command's table lists as a flag becomes that flag; otherwise a word listed as an option becomes that option with the following word as its value, whatever that word looks like; otherwise a word made of a dash and letters that are all single-letter flags becomes these flags in order. The first word that is none of these (also an empty word, a lone dash, or an option with no word after it) and all words after it are operands, even when they look like flags. A command without a table has no flags and no options.",
 ["inputs", "configurations"], "every word list and every table",
 "Tests sample well-formed commands only; boundary cases (option as last word, empty word, dash, flags after operands, flag-like values) need every position in lists of any length.",
 [P+"parser/parser.py", P+"parser/util_parser.py"],
 [("recognition order and operand boundary", P+"parser/parser.py: parse, are_all_individually_flags"), ("name sets", P+"parser/parser.py: get_set_of_all, get_set_of_all_options")], ["result of parse"])

prop("C03", "Synonymous spellings parse to the same command",
 "Every flag and every option in a parsed command carries the first spelling of its table entry, also when it was written inside a bundle such as -rn. So replacing any flag or option word by a synonym from the same table entry, or a bundle by its separate flags, yields an equal parsed command, and therefore the same annotations.",
 ["inputs", "configurations"], "every word list, every entry and synonym of every table, every bundle",
 "There are some 250 synonyms in 24 tables and arbitrarily long bundles; tests touch about five of them.",
 [P+"parser/parser.py", T+"grep.json", T+"sed.json", T+"sort.json"],
 [("primary representation maps", P+"parser/parser.py: get_dict_flag_to_primary_repr, get_dict_option_to_primary_repr")], ["result of parse"])

prop("C04", "Every shipped option table is well-formed",
 "Each flag entry of a table is a non-empty list of spellings and each option entry is a non-empty list of spellings followed by the kind of its value; every spelling starts with a dash followed by at least one more character and occurs once among the flags and once among the options. An option whose value is a file or directory declares one of the seven access kinds, and the table can be loaded by every command annotated. ",
 ["configurations"], "every entry of every shipped table",
 "No test loads most of the tables; a malformed entry (a bare string instead of a list, say) silently turns its letters into flags for the inputs that contain them.",
 [T, P+"config/definitions.py", A+"InputOutputInfoGenerator_Interface.py"],
 [("tables", T), ("table reader", A+"InputOutputInfoGenerator_Interface.py: get_dict_option_to_class_for_arg")], ["tables as loaded by get_json_data"])

prop("C05", "Tables agree with the documented commands on which words take a value",
 "For the standard commands with a table (awk, comm, cut, diff, grep, head, mkfifo, mv, sed, seq, sort, tail, uniq, wc, xargs and others), every option that POSIX documents for the command, and every switch in the shipped table that the GNU manual documents, consumes the following word as its value, under its short and its long name, exactly if it is documented with a mandatory value; one documented without value leaves the following word alone. Switches whose value is optional are not covered.",
 ["configurations", "inputs"], "every documented switch of every standard command with a table, in any position with any following words",
 "Tests use about a dozen switches; a wrong entry (tail -n as a plain flag) makes the value an input file for every command line that uses it.",
 [T, P+"parser/parser.py"], [("tables", T), ("parse loop", P+"parser/parser.py: parse")], ["result of parse"])

prop("C06", "Asking for annotations never fails and leaves the command unchanged",
 "For every command with any flags, options and operands, whether it is annotated, unknown, or malformed (missing or extra operands, options not in its table), asking for its input-output information or its parallelizability information returns such information or nothing, but never raises an error, and leaves the command unchanged. Commands without annotation of the kind asked for get nothing.",
 ["inputs"], "every command name, flag/option list and operand list of any length",
 "Tests request annotations for about 45 fixed well-formed invocations; malformed and unknown ones are unbounded.",
 [G+"AnnotationGeneration.py", A+"Generator_Interface.py"],
 [("generator lookup and failure handling", G+"AnnotationGeneration.py: get_input_output_info_from_cmd_invocation, get_parallelizability_info_from_cmd_invocation")],
 ["result of the two annotation requests"])

prop("C07", "An annotation does not depend on earlier requests or on edited results",
 "The result of parsing a command line, and of asking for either annotation, depends only on the given command: repeating a request gives an equal result, whatever parse, annotation, mapper or aggregator requests came before, and whatever a caller did to earlier results (lists extended, infos applied, parallelizers inferred); and a result already handed out is not changed by later requests.",
 ["histories", "inputs"], "every history of requests and edits of their results",
 "Each test makes one or two requests in a fresh state; shared tables, default arguments or cached objects only show after specific sequences.",
 [G+"AnnotationGeneration.py", P+"parser/util_parser.py", G+"datatypes/ParallelizabilityInfo.py", G+"datatypes/InputOutputInfo.py"],
 [("fresh generator and info objects per request", G+"AnnotationGeneration.py"), ("tables loaded per request", P+"parser/util_parser.py: get_json_data")], ["results of repeated requests"])

prop("C08", "Operands get the role the command gives them",
 "All operands are streaming inputs for cat, head, tail, cut, sort, wc, diff and comm; for grep, sed and awk the first operand is a literal string and the rest streaming inputs, unless the pattern, script or program is given by an option (grep and sed: -e or -f, awk: -f, -e or -E), when all operands are streaming inputs; for tr, seq and xargs all are literal strings. uniq reads the first and writes the second operand as stream, tee writes streams to all, rm and mkfifo have all operands as other outputs, set_diff has one configuration file, and mv has other inputs followed by one other output, or only other inputs if a target directory is given once by -t. Invocations the command rejects (comm without exactly two operands, set_diff without exactly one, uniq with more than two, mv with several target directories or nothing to move, grep, sed or awk without pattern, script or program) and wc --files0-from get no input-output information.",
 ["inputs", "configurations"], "every flag/option list and every number of operands for all annotated commands",
 "Tests cover nine commands with at most four operands; roles must hold for every operand count and every combination of flags.",
 [A, G+"datatypes/InputOutputInfo.py"],
 [("per-command generators", A), ("role setters", G+"datatypes/InputOutputInfo.py")], ["operand roles in the input-output information and in the command it is applied to"])

prop("C09", "Standard input and output are reported exactly when used implicitly",
 "cat, head, tail, cut, wc, grep, sed and awk implicitly read standard input exactly when no input file operand is left (for grep, sed and awk after taking away the pattern, script or program operand), sort when there is no operand and no --files0-from, uniq when there is no operand; tr, tee, xargs, col and set_diff always read it and comm, diff, seq, rm, mv and mkfifo never do. Standard output is implicitly written by all of these except rm, mv and mkfifo, sort with -o, grep with -q, and uniq with an output operand. An implicit input is always standard input with streaming-input access and an implicit output standard output with streaming-output access.",
 ["inputs"], "every flag/option list and operand list for all annotated commands",
 "The tests check fixed operand counts; a wrong boundary (one operand versus none, -q given as --quiet, -o repeated) needs every combination.",
 [A, G+"datatypes/InputOutputInfo.py"],
 [("implicit stream setters", A+"InputOutputInfoGenerator_Interface.py"), ("per-command generators", A)], ["implicit streams in the input-output information"])

prop("C10", "Applying input-output information preserves the command",
 "Applying the input-output information generated for a command to that command yields the same command name, the same flags and options in the same order under the same names, and one argument per operand in the same order with the same text. An argument whose role is a file becomes a file of that name with that role's access, except that a dash becomes standard input for input roles and standard output for output roles; a literal string stays that string; the implicit streams are carried over.",
 ["inputs"], "every command, argument text, length and role assignment",
 "Tests count arguments per role for a few invocations; they never compare names, order or access for lists of arbitrary length, nor a dash in output position.",
 [G+"datatypes/InputOutputInfo.py", P+"util.py", P+"datatypes/BasicDatatypesWithIO.py"],
 [("application of roles", G+"datatypes/InputOutputInfo.py: apply_input_output_info_to_command_invocation, apply_typer_to_arg, apply_typer_to_flagoption"), ("dash handling", P+"util.py")],
 ["command with input-output information"])

prop("C11", "Option values get the access the table declares",
 "In the input-output information of a command, an option's value is a file with the access kind declared in the command's table when the table declares the value to be a file or directory, and a literal string otherwise; flags have no value. This holds for each option by itself, whatever other options and operands surround it.",
 ["inputs", "configurations"], "every flag/option list over every table",
 "Only two options with file values occur in tests; every option of every table in every position matters for which files a command touches.",
 [A+"InputOutputInfoGenerator_Interface.py", P+"config/definitions.py", T],
 [("typing of option values", A+"InputOutputInfoGenerator_Interface.py: get_flagoption_list_typer_for_specific_list, get_dict_option_to_class_for_arg")],
 ["option roles in the input-output information"])

prop("C12", "A command is reported to have other outputs exactly when it has one",
 "Input-output information reports that a command has outputs other than streams exactly when at least one of its option values or operands has the other-output role, at whatever position; the same holds for the corresponding question on commands whose files are numbered streams.",
 ["inputs"], "every list of roles of any length",
 "The question decides whether a command is treated as side-effectful; tests ask it for three commands.",
 [G+"datatypes/InputOutputInfo.py", P+"datatypes/CommandInvocationWithIOVars.py"],
 [("scan over roles", G+"datatypes/InputOutputInfo.py: has_other_outputs"), ("scan over variables", P+"datatypes/CommandInvocationWithIOVars.py: has_other_outputs")],
 ["answer of has_other_outputs"])

prop("C13", "Only parallelizers that are sound for the given flags are offered",
 "grep offers consecutive-chunk and round-robin parallelizers (command itself as mapper, concatenation) exactly when it has none of -q, -A, -B, -C, -m, -L, -l, -c, -n, -b; sort and custom_sort offer one consecutive-chunk parallelizer with a two-input merge exactly when none of -c, -C, -u, -z, -R, -s, -m, --files0-from, --random-source is present, and are marked commutative; uniq offers nothing with -d, -D or --all-repeated, else both splittings with an adjacent-line function (-c) or the command itself on adjacent lines. sed offers both with concatenation exactly when every script (each -e value, or else the first operand) starts with s, starts with a dash as first operand, or contains neither d nor q, and no script file is used. cut, col, custom_tr and xargs offer both with concatenation; set_diff offers only consecutive chunks with concatenation; alt_bigrams_aux and bigrams_aux offer consecutive chunks with their named map and two-input reduce commands (bigrams_aux with two auxiliary outputs); other standard commands offer nothing.",
 ["inputs"], "every flag/option list and operand list",
 "An unsound parallelizer corrupts output silently; tests check single flags on a few commands, not combinations, positions or long spellings.",
 [A], [("per-command generators", A), ("helpers", A+"ParallelizabilityInfoGenerator_Interface.py")], ["parallelizability information"])

prop("C14", "tr is parallelized according to whether it deletes or squeezes newlines",
 "Let the decisive set of tr be its last operand; it effectively contains a newline when it contains a backslash-n or backslash-0 escape anywhere in its text (the first character included), or, for a single operand with the complement flag, when it contains neither. With -d and such a set tr offers consecutive chunks and round robin with merging of adjacent lines; otherwise with -s and such a set both with an adjacent-line function; otherwise both with concatenation. Both unsafe combinations are marked as not implemented, and -d or -s without operand offers nothing.",
 ["inputs"], "every set text, flag list and operand list",
 "Depends on arbitrary strings and on the combination of flags, operand count and position of the escape.",
 [A+"ParallelizabilityInfoGeneratorTr.py", P+"datatypes/BasicDatatypes.py"],
 [("newline decision", A+"ParallelizabilityInfoGeneratorTr.py: does_last_set_effectively_contain_newline"), ("escape search", P+"datatypes/BasicDatatypes.py: Operand")],
 ["parallelizability information"])

prop("C15", "Parallelizers are well-formed and unimplemented parts yield nothing",
 "A plain round-robin parallelizer can only be built with concatenation or an aggregator on adjacent lines; any other aggregator is refused. A parallelizer built without mapper uses the command itself, without aggregator concatenation, and keeps every part it was given. Asking an unimplemented mapper or aggregator for a concrete command returns nothing, all parts count as implemented only if both are, and asking for a mapper with a number of auxiliary outputs other than declared is refused.",
 ["inputs", "configurations"], "every combination of splitter, mapper, aggregator and numbers of auxiliary outputs, every command",
 "Tests build a handful of combinations, all valid.",
 [Z+"Parallelizer.py", Z+"MapperSpec.py", Z+"AggregatorSpec.py", Z+"Splitter.py"],
 [("sanity check", Z+"Parallelizer.py: Parallelizer"), ("factories", Z+"Parallelizer.py"), ("implementation flag", Z+"MapperSpec.py, AggregatorSpec.py")], ["factories and queries of parallelizers"])

prop("C16", "Inferring additional parallelizers is exact and has no effect",
 "The inferred parallelizers of a command are the stored ones in order followed, for a commutative command, by one unwrapping round-robin variant (same mapper and aggregator parts) of each stored consecutive-chunk parallelizer, and nothing else. Asking any number of times gives equal answers and does not change the stored parallelizers; the unpacked information is this list with the two stored flags.",
 ["inputs", "histories"], "every parallelizer list of every length, every flag value, every number of repeated requests",
 "Tests ask once and never check the stored list afterwards; growth shows only on repeated requests.",
 [G+"datatypes/ParallelizabilityInfo.py", Z+"Parallelizer.py"],
 [("inference", G+"datatypes/ParallelizabilityInfo.py: get_inferred_parallelizer_list, unpack_info"), ("variant", Z+"Parallelizer.py: make_parallelizer_round_robin_with_unwrap_from_other")], ["inferred parallelizer list"])

prop("C17", "Flag-list transformers compute exactly the documented list",
 "Applied to any flag/option list: keeping yields the list itself, adding appends in order those given entries that are not equal to one in the list, removing drops exactly the entries with a given name, filtering keeps exactly those, emptying yields the empty list, and custom yields the given list. A chain applies its transformers from first to last. The order of kept entries and the given list are unchanged.",
 ["inputs"], "every flag/option list, transformer list and name list of any length",
 "Tests apply one chain to two lists; order and duplicates over arbitrary lists and chains are not reached.",
 [Z+"TransformerFlagOptionList.py", P+"util.py"],
 [("transformers", Z+"TransformerFlagOptionList.py"), ("fold", P+"util.py: foldl")], ["transformed flag list"])

prop("C18", "Substituting streams replaces exactly the streaming ones, in order",
 "Given a command whose streams are numbered by distinct ids and fresh distinct new ids, substituting inputs and outputs replaces the k-th streaming input (and likewise output), counted through option values, then operands, then implicit input, then implicit output, by the k-th given id; the new id has the access of the one it replaces and replaced ids are forgotten. Everything else (name, flags, option names, strings, other ids and their access, all positions) is unchanged. Giving more or fewer ids than there are streams is refused.",
 ["inputs"], "every command of any length, any assignment of access kinds, any number of new ids",
 "No test exercises the substitution directly; position counting across four places needs all shapes and lengths.",
 [P+"datatypes/CommandInvocationWithIOVars.py"],
 [("substitution", P+"datatypes/CommandInvocationWithIOVars.py: substitute_inputs_and_outputs_in_cmd_invocation, map_var, replace_var_consistently")], ["command after substitution"])

prop("C19", "Listing inputs and outputs is complete, ordered and side-effect free",
 "The listed streaming inputs of a command with numbered streams are exactly its ids with streaming-input access, and the listed outputs exactly its ids with streaming- or other-output access, each once per occurrence, counted through option values, operands, implicit input, implicit output. Listing them leaves the command equal to what it was, and configuration inputs are listed as empty.",
 ["inputs"], "every command of any length and any access assignment",
 "No test lists them; completeness over all four places and all access kinds is a universal claim.",
 [P+"datatypes/CommandInvocationWithIOVars.py", G+"datatypes/Inputs.py"],
 [("traversal", P+"datatypes/CommandInvocationWithIOVars.py: generate_inputs, generate_outputs, map_var")], ["generated inputs and outputs"])

prop("C20", "Removing streaming inputs or outputs removes exactly those",
 "Removing the streaming inputs (outputs) of a command with numbered streams drops every operand, every option bound to, and every implicit use of an id with streaming-input (streaming-output) access, and forgets these ids. Everything else keeps its order, value and access.",
 ["inputs"], "every command of any length with distinct ids and any access assignment",
 "Not tested at all; adjacent removals and removals in options are the error-prone cases.",
 [P+"datatypes/CommandInvocationWithIOVars.py"],
 [("removal", P+"datatypes/CommandInvocationWithIOVars.py: remove_streaming_inputs, remove_streaming_outputs, flat_map_anything_non_names")], ["command after removal"])

prop("C21", "A mapper is the original command on the given streams",
 "For a command with one streaming input and one streaming output, the concrete mapper without auxiliary outputs is the original command (or the named map command with the transformed flag list) in which just that input and that output are replaced by the given ids, with their access carried over. With auxiliary outputs its operands are the given input, output and auxiliary outputs in this order, with streaming access, no implicit streams, and no access information left for the replaced ones. The original command and the mapper description are unchanged.",
 ["inputs"], "every command and every assignment of ids, every number of auxiliary outputs",
 "Tests never build a concrete mapper.",
 [Z+"MapperSpec.py", Z+"Mapper.py", P+"datatypes/CommandInvocationWithIOVars.py"],
 [("mapper construction", Z+"MapperSpec.py: get_mapper")], ["concrete mapper"])

prop("C22", "An aggregator reads exactly the given inputs and writes the given output",
 "A concrete concatenation is cat over the given inputs in order with the given output. An aggregator derived from the command itself has its name and transformed flag list, exactly the given inputs as operands and the given output as implicit output, with no streaming input or output of the original left; one given as command string has that string's name and flags instead. Adjacent-line and two-input aggregators refuse any other number of inputs, and a two-input aggregator with auxiliary streams takes first input, its auxiliaries, second input, its auxiliaries, output, auxiliary outputs as operands in this order, refusing unequal numbers of auxiliaries.",
 ["inputs"], "every command, every list of input ids, every transformer",
 "Tests never build a concrete aggregator.",
 [Z+"AggregatorSpec.py", Z+"Aggregator.py", P+"datatypes/CommandInvocationWithIOVars.py"],
 [("aggregator construction", Z+"AggregatorSpec.py: get_aggregator, get_actual_2_ary_aggregator_with_aux")], ["concrete aggregator"])

prop("C23", "Derived commands and parallelizers share no mutable state with their origin",
 "Building a command with numbered streams, a mapper, an aggregator or an unwrapping variant from an existing object leaves that object unchanged, and later substitutions, removals or list edits on the derived object never change the original, the parallelizer description, or another derived object, nor vice versa.",
 ["inputs", "histories"], "every command and every later sequence of operations on derived objects",
 "Aliasing shows only after a later mutation through another reference; tests never mutate after deriving.",
 [P+"datatypes/CommandInvocationWithIOVars.py", Z+"Mapper.py", Z+"Aggregator.py", Z+"Parallelizer.py"],
 [("copying constructors", P+"datatypes/CommandInvocationWithIOVars.py: __init__"), ("deep copy of variants", Z+"Parallelizer.py: make_parallelizer_round_robin_with_unwrap_from_other")], ["original after operations on derived objects"])

prop("C24", "Equality of values is structural and kind-sensitive",
 "Two names, flags, options, operands, strings, access kinds, commands, splitters, mapper or aggregator parts or parallelizers are equal exactly when they are of the same kind and all their components are equal. So values of different kinds are unequal even with the same text (a file and a string, a flag and an operand), and comparing with any other object is false rather than an error.",
 ["inputs"], "every pair of values of every kind with arbitrary components",
 "Tests compare a few equal pairs; inequality for every single component and every pair of kinds is not covered.",
 [P+"util_standard.py", P+"datatypes/BasicDatatypes.py", Z+"Splitter.py"],
 [("structural equality", P+"util_standard.py: standard_eq")], ["== on values"])

prop("C25", "The command-line tool never overwrites a file",
 "Called with a file to save to, the command-line tool writes its whole report there if and only if nothing exists at that path, relative to the directory it is called from; if something exists it is left untouched and the report goes to standard output after a notice. Without such a file the report goes to standard output, and no other file is created or changed.",
 ["inputs", "configurations"], "every path, existing or not, every working directory, every command",
 "The tool has no test; the outcome depends on file system state.",
 [P+"annotation_cli.py"], [("existence check and write", P+"annotation_cli.py")], ["file system and standard output after a call"])

prop("C26", "Access kinds are distinct and classified into inputs and outputs",
 "Each of the seven access kinds answers yes to exactly one of the seven kind questions, is an input or an output but not both (the five input kinds and the two output kinds), and is what its name and its maker produce. Any other name is refused. Standard input and output makers produce those descriptors with streaming access.",
 ["inputs"], "every access kind and every name string",
 "The classification decides dash handling and side effects; no test covers the rare kinds, and names range over all strings.",
 [P+"datatypes/AccessKind.py", P+"datatypes/BasicDatatypesWithIO.py"],
 [("kind predicates and makers", P+"datatypes/AccessKind.py")], ["kind questions"])

prop("C27", "Operands and options are listed by role completely and without overlap",
 "For a command with input-output information, the lists of operands with configuration input (literal strings included), streaming input, other input, streaming output and other output contain exactly the operands of that role, in order, and no operand is in two of them; options with other outputs are exactly the options whose value has that role. Listing changes nothing.",
 ["inputs"], "every operand and option list of any length over all roles",
 "Tests count these lists for small fixed commands.",
 [P+"datatypes/CommandInvocationWithIO.py"],
 [("role lists", P+"datatypes/CommandInvocationWithIO.py: get_operands_with_*, get_options_with_other_output")], ["role lists"])

prop("C28", "List helpers and simple argument makers are exact",
 "Removing duplicates keeps the first occurrence of every element in order and drops all later equal ones; folding applies the function to the elements from first to last; a simple argument of one word is a flag and of two words an option with that value, and any other number is refused. Defaults replace only missing values, so an empty list, zero or false is kept.",
 ["inputs"], "every list of any length with elements of any kind",
 "Duplicates at arbitrary distances and falsy values are not tested.",
 [P+"util.py", P+"util_flag_option.py"], [("helpers", P+"util.py, "+P+"util_flag_option.py")], ["results of the helpers"])

prop("C29", "Shell words are rendered part by part",
 "Rendering a shell word concatenates the renderings of its parts in order: a plain or escaped character is that character, a quoted part is its rendered content in double quotes, a variable is its name in ${...}, and a command substitution is wrapped in $(...). Nested quotes are rendered recursively and any other kind of part is refused.",
 ["inputs"], "every sequence of parts of any length and nesting",
 "The renderer has no test; it is defined over arbitrarily nested sequences and all characters.",
 [P+"datatypes/BasicDatatypes.py"], [("renderer", P+"datatypes/BasicDatatypes.py: format_arg_chars, format_arg_char")], ["rendered text"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in R:
        f.write(json.dumps(r) + "\n")
print(len(R))
