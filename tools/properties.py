#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})
T="src/testing/test.rs"; DB="src/testing/database.rs"; CE="src/testing/calc_eval.rs"
BL="src/burn_script/lexer.rs"; BP="src/burn_script/parser.rs"; CL="src/compile/lexer.rs"; CP="src/compile/parser.rs"
AS="src/compile/assembler.rs"; DE="src/decompile/decompiler.rs"; CH="src/chunk.rs"; EU="src/encoding_util.rs"; DC="src/dbcharconv.rs"

prop("P01","A test's reported outcome is exactly what its assertions decided",
 "Every test in the run is executed exactly once, in the order given, and its outcome line says Fail if and only if an assert step that was executed had a condition that evaluates to false, and Success otherwise. A failing assertion is reported with its expression and ends that test at once: none of its later steps takes effect. A condition that is true, in any script the test calls and at any nesting depth, never makes a test fail.",
 ["programs"],"all test files of scripts made of the supported steps, with any number of asserts in test scripts, loops, branches and called scripts",
 "The unit tests only run programs whose assertions all hold, so neither the failing outcome, nor its effect on later steps and tests, nor the printed outcome is ever observed.",
 [T],[("step loop stops on Fail","run_tests_with_cleanup in "+T),("Assert step","step in "+T)],observe=["standard output of a run"])
prop("P02","Tests are isolated from each other",
 "A test behaves the same whichever tests ran before it in the same run and whatever their outcome: it starts with every table empty, every occurrence without current record, the first table occurrence of the file as its context, no variables, browse mode and no pending find criteria. Running a test alone or after others gives the same output lines and the same outcome.",
 ["programs","histories"],"all sequences of tests, including ones that fail, that end inside a called script, inside find mode or on another layout",
 "Each unit test builds its own environment and runs a single test in it, so nothing that leaks from one test to the next can be seen.",
 [T,DB],[("load_test resets interpreter state",T),("clear_records resets data and context",DB)],observe=["standard output of a run","step trace"],hook="optional step trace")
prop("P03","Arithmetic follows the usual precedence, grouping and number values",
 "An expression of numbers, number variables, + - * / and parentheses evaluates to the double-precision value of conventional arithmetic: * and / bind tighter than + and -, equal precedence groups to the left, parentheses override, at any depth and length. Spaces, tabs and newlines between tokens, or their absence, and redundant parentheses do not change the value.",
 ["inputs"],"all expressions over non-negative decimal literals and number variables, with non-zero divisors and finite results; unary minus is not part of the language",
 "Two unit tests check a dozen fixed expressions; precedence, associativity and parenthesis handling must hold for every combination and depth.",
 [CE,T],[("recursive descent by precedence","parse_comparison..parse_primary in "+CE),("tokenizer and evaluator","eval_calculation, evaluate in "+T)])
prop("P04","Comparisons are by value for numbers, by text otherwise, and consistent",
 "The operators == != < <= > >= yield true or false: two numbers compare by numeric value, anything else compares as text (without the quotes around it) in character order, and the six operators always agree with one total order. Comparison binds more loosely than concatenation and arithmetic, and its outcome can be stored in a variable, compared and grouped with parentheses.",
 ["inputs"],"all pairs of operands: numbers, texts, empty values, outcomes of comparisons, from literals, variables, fields and nested expressions",
 "Tests only assert a few equalities; ordering operators, mixed types and numbers of different written forms are never compared.",
 [T,CE],[("compare_values",T),("parse_comparison",CE)])
prop("P05","Text literals and concatenation keep every character",
 "A quoted literal evaluates to exactly the characters between its quotes, including commas, brackets, parentheses, semicolons, operators, leading and trailing spaces, line breaks and non-ASCII text, wherever an expression may stand and whatever step it is an argument of. The & operator yields the characters of its left operand followed by those of its right one, numbers in their plain decimal form, for any number of operands and any grouping, and it binds more loosely than arithmetic and more tightly than comparison.",
 ["inputs"],"all literals without a quote character and all concatenations of literals, numbers, variables, fields and function results (which may hold quotes)",
 "Tests use a handful of plain alphabetic literals; three separate tokenizers have to agree on where any literal ends.",
 [CL,BL,T,CE],[("script block scanner",CL),("argument scanner",BL),("calculation tokenizer",T),("concatenation",CE)])
prop("P06","Built-in functions return their documented values anywhere in an expression",
 "Abs, Acos and Asin return the mathematical value for their numeric argument, Char the one-character text of a Unicode code point, Min the smallest of its arguments (numbers by value, texts by character order, any number of arguments), Get(AccountName) the text Admin and Get(CurrentTime) the current time in whole seconds since 1970. A call may stand wherever a value may, its arguments may be any expressions including further calls, and spacing around the parentheses and commas does not matter.",
 ["inputs"],"all calls with arguments in the functions' domains, nested and combined with every operator",
 "One unit test calls Min once with two arguments; no other function is called by any test.",
 [T,CE],[("function dispatch","evaluate in "+T),("argument parsing","parse_args in "+CE)])
prop("P07","Branches and loops execute exactly the steps their nesting says",
 "Of an if/elif/else block exactly one branch runs, the first whose condition evaluates to true or else the else branch if there is one, and conditions after the taken one are not evaluated; then the steps after the block run. A loop repeats its body from its own start until an exit step whose condition is true is reached, which continues right after the innermost loop enclosing it, also from inside branches and for blocks nested to any depth. No other step is run, skipped or repeated.",
 ["programs"],"all terminating nestings of if, elif, else, loop, exit_loop_if and plain steps",
 "The only test with control flow has one loop with one flat if chain; nesting, empty bodies and multiple exits are combinatorial.",
 [T,BP],[("block matching","skip_to and EndLoop in step in "+T),("block closing","parse in "+BP)],observe=["dialog output","step trace"])
prop("P08","Sub-script calls run the whole named script and come back",
 "perform_script runs the steps of the script with the given name, found by the text its argument evaluates to, from its first step, and afterwards the caller continues with the step after the call; calls nest to any depth, including a script calling itself. exit_script ends only the script that executes it, at any depth of blocks, and control returns to its caller or ends the test; a call of a script name that does not exist does nothing.",
 ["programs"],"all acyclic and bounded-recursive call structures over scripts of compiled and decompiled files",
 "No unit test performs a script or exits one.",
 [T],[("call stack","instruction_ptr, PerformScript and ExitScript in step in "+T)],observe=["dialog output","step trace"])
prop("P09","Variables are private to one script execution and hold the last value set",
 "Reading a variable yields the value most recently stored in it by the same execution of the same script, unchanged whatever its type and however often it was overwritten. A called script starts with no variables, nothing it sets is visible to its caller or to later calls, and the caller's variables are unchanged when it returns.",
 ["programs","histories"],"all interleavings of assignments and calls, with equal names used in callers and callees",
 "Tests use two variables within one script and never call another.",
 [T],[("a scope per call","variables in "+T)],observe=["dialog output"])
prop("P10","Setting a field changes exactly that field of the current record",
 "After set_field on an occurrence's field, reading that field through any occurrence positioned on the same record gives exactly the stored value, of any type; every other field, record, table, variable and every found set and position is unchanged. A field reference in any expression reads the current record of the occurrence it names, and is empty when that occurrence has no current record, in which case set_field changes nothing.",
 ["histories"],"all histories of record creation, navigation, finds and writes over schemas with several tables, fields and occurrences of the same table",
 "One test writes five values through one occurrence and reads back mostly through the Rust API.",
 [T,DB],[("field lookup by occurrence and name",DB)],state=[("records per field","values of each field by record","Field in "+DB)],observe=["dialog output","step trace"])
prop("P11","A new record is appended blank and becomes current everywhere",
 "new_record_request appends exactly one record with every field empty to the table of the current layout's occurrence, adds it at the end of the found set of every occurrence of that table and makes it their current record. No other table, occurrence or existing value changes, and all fields of a table always have the same number of records.",
 ["histories"],"all histories in which records are created between navigation, finds, layout switches and writes",
 "The single test that creates records never mixes creation with reduced found sets or several occurrences of one table.",
 [DB],[("create_record",DB)],observe=["dialog output","step trace"],hook="step trace")
prop("P12","Record navigation stays inside the found set and exits after the last",
 "go_to_record moves the current occurrence to the first, last, next or previous record of its found set or to the zero-based position given (beyond the end: the last one), never leaves the found set, and changes no data and no other occurrence. When its second argument is given and true, it leaves the innermost loop exactly when the move could not change the position, so a loop over first/next visits each record of the found set once and in order.",
 ["histories"],"all navigation sequences over found sets of any size, including empty and one-record ones, in nested loops and branches",
 "The test walks a found set forwards twice; previous, last, positions, empty sets and exits from nested blocks are not exercised.",
 [T,DB],[("GoToRecordRequestPage",T),("goto_* functions",DB)],observe=["dialog output","step trace"],hook="step trace")
prop("P13","A find selects exactly the matching records, show all restores all",
 "perform_find makes the found set of the current occurrence exactly the records of its whole table for which at least one criterion entered in find mode (a field and a value) equals the stored value, in record order, with the first as current; if no record matches, the found set is all records. Other occurrences and all data are unchanged, find mode ends and its criteria never affect a later find; show_all_records makes the found set all records of the table in order.",
 ["histories"],"all sequences of finds, writes, creations and show-all steps over all data",
 "Tests perform two single-criterion finds that both match.",
 [T,DB],[("PerformFind",T),("update_found_set, reset_found_set",DB)],observe=["dialog output","step trace"],hook="step trace")
prop("P14","A layout switch changes the context and nothing else",
 "go_to_layout makes the table occurrence of the named layout the current one, on which record creation, navigation and finds then act; an unknown layout name leaves the context as it was. Every occurrence keeps its own found set and position across switches, no data, variable or mode changes, and the name may be any expression.",
 ["histories"],"all histories that switch between any layouts, several of which may share an occurrence, in any mode",
 "One test switches layouts twice and never comes back to the first one.",
 [T,DB,"src/testing/layout_mgr.rs"],[("layout lookup","src/testing/layout_mgr.rs"),("set_current_occurrence",DB)],observe=["dialog output","step trace"],hook="step trace")
prop("P15","Related lookups return the first record that satisfies the relationships",
 "Looking up a field of a related occurrence from the current record follows the shortest chain of relationships and at each hop keeps the records of the next table whose join field stands in that relationship's comparison (==, !=, <, <=, >, >=, any) to a kept record's join field, seen from either side of the relationship; numbers are ordered by value and texts by character. The result is the requested field of the first record reached, or an error, never another record's value, if there is no chain, no current record or no match.",
 ["histories","configurations"],"all schemas with a unique shortest chain between two different occurrences, all comparison kinds and directions, one or more hops, all data",
 "One test looks up one field over a single equality; chains, other comparisons and the reverse direction are not covered.",
 [DB],[("get_related_record_field",DB),("relationship sides","generate_from_fmp12 in "+DB)],observe=["lookup result"],hook="lookup through the drive interface")
prop("P16","Related lookups take a shortest chain of relationships",
 "For any relationship graph and two different table occurrences, a field of the second can be looked up from a record of the first exactly when they are connected by relationships, in either direction of each, over any number of hops. The lookup comes along a shortest chain: it depends only on occurrences that lie on such a chain, never on a detour, and yields the field of the occurrence that was asked for.",
 ["configurations","inputs"],"all undirected graphs (cyclic, disconnected, with repeated edges) stored in a file and all pairs of different occurrences, with relationships every pair of records satisfies",
 "One test queries three pairs on a tree of five edges.",
 ["src/testing/relation_mgr.rs",DB,DE],[("breadth-first search","get_path in src/testing/relation_mgr.rs"),("relationship sides",DB)],observe=["lookup result"],hook="lookup through the drive interface")
prop("P17","Compiling a source yields exactly the components it declares",
 "The model produced from a source contains every declared table, table occurrence, relationship, value list, script and test once, with its name and, for occurrences and relationships, the names of the tables they refer to, and nothing that was not declared. Components of each kind are numbered consecutively in source order, independently of how the kinds are interleaved and of white space; compiling several files adds up their components.",
 ["programs"],"all well-formed sources in which every component kind occurs any number of times in any order and layout",
 "No test compiles anything but tests and scripts; only script token streams are compared.",
 [CL,CP],[("tokenize",CL),("parse_program",CP)],observe=["inspect_output/test_compile"])
prop("P18","Compiled scripts have exactly the steps of their source, in order",
 "The steps of a compiled script are its source steps in order, each with its arguments as written (trimmed, split at top-level commas only), and every block is bracketed by its own opening and closing step so that nesting in the model equals nesting in the source. Script names and parameter names are kept, and formatting (spaces, line breaks, spacing around braces, commas and parentheses) does not change the model.",
 ["programs"],"all scripts of supported steps and blocks nested to any depth, with any argument expressions, in script blocks and in tests",
 "Two fixed scripts are compared with their token and step lists.",
 [BL,BP],[("get_tokens",BL),("parse",BP)],observe=["inspect_output/test_compile"])
prop("P19","Decompiling reports the schema stored in the file, and nothing else",
 "For every valid file the decompiled model contains each stored table with its fields, each table occurrence with its table, each relationship with its two occurrences, two fields and comparison, each layout with its occurrence, each script and each data source, under their stored ids and with their stored names, fields also with their description, their (deciphered) type data and the user and account that created them and data sources with their user, path and file name. Nothing is dropped, duplicated, swapped or attributed to another component, whatever the number of components, their ids, the length of their values, the order they are stored in and unrelated data below or beside them.",
 ["inputs"],"all files of the supported format version with any number of components, ids of one and two bytes, values of any length (one chunk, long chunk, segments) and names (also non-ASCII)",
 "A single sample file is decompiled by one test, which looks at two tables.",
 [DE,EU,"src/component.rs"],[("path-directed extraction",DE)],observe=["inspect_output/test_decompile","test run on the decompiled file"])
prop("P20","Decompiled scripts keep their steps, order and step options",
 "For every script stored in a file the decompiled script has exactly the stored steps with their kind and step index in stored order, however the script is split over the file, and the options of a step are attached to that step: the name and calculation of a set-variable step, the result of an exit-script step and the quoted target name of a perform-script step (none when the file does not hold that script). Further options that the model has no place for, and steps of kinds the tool does not know, add nothing and disturb nothing. Running such a script has the effect its steps state.",
 ["inputs"],"all stored scripts of known step kinds, short or spread over several data segments, with any step indices and targets, also of scripts that are gone",
 "No test looks at the scripts of a decompiled file.",
 [DE,"src/fm_script_engine/fm_script_engine_instructions.rs"],[("assemble_script and step data",DE)],observe=["inspect_output/test_decompile","test run on the decompiled file"])
prop("P21","Chunk forms and sector placement do not change what is decompiled",
 "Two files that store the same components decompile to the same model, no matter which of the equivalent encodings (lengths and kinds of chunks, forms of pushing a path, no-op padding, unrelated chunks of any known kind in between, a pop of its own or joined to an unrelated chunk) they use, in which physical order the sectors lie as long as they are chained in the same logical order, and where the data is cut into sectors.",
 ["inputs","configurations"],"all encodings of the same model by the known chunk kinds, path forms and sector layouts",
 "The sample file has one fixed encoding; most chunk kinds and sector boundaries are not tested at all.",
 [CH,DE,"src/decompile/sector.rs"],[("get_chunk_from_code",CH),("sector chain",DE)],observe=["inspect_output/test_decompile"])
prop("P22","Any input file leads to a prompt, orderly end",
 "Decompiling any file and compiling any source text, however truncated, corrupted or hostile, ends in bounded time and memory, either with a model or with a reported error: it never hangs, never exhausts memory and never dies from a signal. Databases that claim more sectors than they have, sector chains that form cycles, and invalid chunks are reported as errors.",
 ["inputs","fault_sequences"],"all byte strings as .fmp12 files, in particular bit flips, truncations, extensions, spliced sectors and rewritten chain links of valid files, and all texts as sources (blocks nested to a depth the stack holds, tests not run)",
 "Tests only read one intact file.",
 [DE,CH,"src/decompile/sector.rs"],[("visited set and size check",DE),("invalid chunk errors",CH)],observe=["exit status, CPU time and memory of a run"])
prop("P23","Assembled files are well formed and carry the declared components",
 "The file written by compiling a source is a valid chain of sectors whose chunks all decode and whose path pushes and pops balance. It carries its own name, and stores every declared table name with its id and every table occurrence name and id, in id order, with the numbers of tables, scripts and layouts. Decompiling that file succeeds and reports exactly the tables of the compiled model, under the same ids.",
 ["programs"],"all sources with names of letters and underscores up to 60 characters and as many tables and occurrences as the one data sector of an assembled file holds (some 30 of each with short names)",
 "The only assembler test checks the opcode chosen for four byte strings; no written file is ever read back.",
 [AS,DC,EU],[("assemble_fmp12",AS)],observe=["the written .fmp12 file"])
prop("P24","Binary encodings round-trip",
 "Decoding an encoded value gives the value back: for every text under the string cipher, for every text of lower-case letters, spaces and underscores under the two-byte character code (upper-case letters come back in lower case), for every integer below 2^32 under the fixed four-byte form, and for every path number up to 1151 under the path form. Path numbers in the two-byte form written by the original software decode to 128 plus the 15-bit value they hold as long as the marker bits of this tool's form are not all set.",
 ["inputs"],"all values of the stated ranges",
 "Tests check about twenty hand-picked values.",
 [EU,DC],[("get_/put_path_int, get_/put_int, fm_string_*",EU),("encode_text, decode_bytes",DC)],observe=["encoded bytes and decoded values"],hook="codec calls through the drive interface")
prop("P25","No input makes the program access memory out of bounds or invoke UB",
 "Whatever files and scripts it is given, the program performs no out-of-bounds or use-after-free access, no invalid conversion and no other undefined behaviour: wrong input ends in a reported error, not in memory corruption.",
 ["inputs","programs"],"all command-line runs over valid, hostile and corrupted .burn and .fmp12 files",
 "Tests run uninstrumented on valid input; memory errors are silent there.",
 [DC,CH,DE,AS],[("safe slicing",CH),("encode_text",DC)],observe=["AddressSanitizer reports, debug assertions, signals"])
prop("P26","Results are reproducible and inputs are never modified",
 "Running the same command on the same files gives the same model, the same test output and, when compiling, byte-identical .fmp12 output each time, on any date, for any user and in any environment. The input files are never changed, and nothing is written except the inspection file, the requested .fmp12 and, on request, the header log, which is a byte-for-byte copy of the input.",
 ["inputs","configurations"],"all commands over all inputs with uniquely named components; the order of keys in the model's JSON objects is not significant",
 "Each test runs once in a process and compares no two runs, and hash-map iteration order, the date and the environment differ from run to run.",
 [AS,DE,"src/main.rs"],[("by_id ordering",AS)],observe=["output files and standard output of repeated runs"])
prop("P27","Command-line options select exactly the files and tests that run",
 "All tests of all files given with -t run in order, followed by the tests declared in the compiled sources, on the components of the files given with -c or -d; with several such files the run after each one sees the components of all read so far, where those of several sources add up and of decompiled components with equal ids the one of the later file counts. The inspection file holds what all sources declare after -c and what the last database contains after -d. --no-testing runs no test and changes nothing about the model or the assembled file; --print-header only adds the header log; missing operands and both or neither of -c and -d end in an error status without reading or running anything, and an unreadable file ends the command in an error status before any test sees what comes after it: no test runs when it is a -t file.",
 ["configurations"],"all combinations of options, file counts and orders",
 "No test runs the command line.",
 ["src/main.rs","src/cli.rs"],[("main","src/main.rs"),("argument groups","src/cli.rs")],observe=["exit status, standard output and written files"])
prop("P28","Decompiled calculations mean what the stored bytecode says",
 "A stored calculation decompiles to an expression with the same operators, operands, function calls, grouping and text literals in the same order, whatever spacing the file stores between them, and evaluating that expression in a test gives the value the stored calculation denotes. Text literals and variable names keep every character, also non-ASCII ones.",
 ["inputs"],"all calculations over the supported operators, comparisons, functions, whole numbers below 256, text literals without a double quote, variables and parentheses",
 "No test decompiles a calculation.",
 [DE],[("decompile_calculation",DE)],observe=["inspect_output/test_decompile","dialog output of running the script"])
prop("P29","The record store is consistent before every step of every test",
 "Before each executed step all fields of a table hold the same number of records; each occurrence's found set lists existing records of its own table without duplicates and in ascending order; its position is inside the found set, or 0 when that is empty; and the current occurrence exists. Records never disappear within a test and appear only through a new-record step.",
 ["histories","programs"],"all step histories of all tests over all schemas",
 "Tests look at a final state once; an invariant broken in between or under other histories is invisible.",
 [DB,T],[("create_record, update_found_set, goto_*",DB)],observe=["step trace"],hook="state snapshot before every step")
prop("P30","Sources that break the grammar are refused, unknown steps are reported",
 "A source text with a structural error (a missing name of a declaration or script, no tables of a relationship or occurrence, a missing colon of a relationship, script or table reference, a missing or wrong end of a declaration, a missing semicolon after a step or an end, a missing or surplus bracket, brace, parenthesis or quote, a branch or loop without a block, a branch without exactly one condition, an elif or else that continues no branch, a test without exactly one script, text that belongs to no declaration) is refused with a message: the command ends with a non-zero status there, no file is written or changed for that source or a later one, and none of its tests run, while what was compiled from earlier sources stays as it is. A step whose name is not known is reported with its name and is the only one left out; nothing else is silently dropped or changed.",
 ["inputs"],"all sources that differ from a valid one by one such error, as the only, an earlier or a later source or as a test file; a missing end is only recognisable where no later declaration of the kind ends in its place",
 "No test compiles a wrong source.",
 ["src/compile/parser.rs","src/compile/lexer.rs","src/burn_script/parser.rs","src/burn_script/lexer.rs"],[("parse_program","src/compile/parser.rs"),("Parser::parse","src/burn_script/parser.rs")],observe=["exit status, messages, written files, compiled model"])
prop("P31","A command that succeeds has written all its outputs in full",
 "A command on valid input that ends with status 0 has written its inspection file, every assembled database, the header log it was asked for and all its output lines in full. When one of them cannot be written (its directory is missing, something that is no file has its name, the device is full, a file-size limit is reached, the reader of the output is gone), the command ends in an error status and not by a signal, and no input file is changed. Nothing else makes a valid command fail.",
 ["inputs","fault_sequences"],"all valid commands over all inputs, with one fault in the way of one output",
 "No test writes an output, and none makes a write fail.",
 ["src/main.rs",DE,AS],[("main","src/main.rs"),("decompile_fmp12_file_with_header",DE),("emit_assembly",AS)],observe=["exit status, output files, standard output under injected faults"])
prop("P32","An input that cannot be used is reported and alters nothing",
 "When a command cannot use one of its inputs (there is no such file, it is a directory or cannot be opened, a source or test file is no UTF-8 text, the name of a source does not end in .burn, a database is empty, cut off or has to be refused), the command ends there with a non-zero status and a message. The inputs before it are processed as if they were the whole command, with the same outputs and tests; no model, database or other file is written, changed or removed for that input or a later one (except the raw header log of a database), whether or not there are outputs of earlier commands, and no further test runs. An unusable test file is noticed before any input is processed.",
 ["inputs","fault_sequences"],"all commands of sources or databases with test files in which one file, at any place, cannot be used",
 "No test gives the command a file it cannot use.",
 ["src/main.rs",DE],[("main","src/main.rs"),("decompile_fmp12_file",DE)],observe=["exit status, messages, tests run, every file of the directory"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
