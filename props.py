# id, title, statement, over, quantifier text, why tests can't, files, mechanism
def M(*l): return [{"name": a, "where": b} for a, b in l]
J = "JSONQuery/"
D = "DFABuilder/"
P = [
("C01", "Serial query result is exactly the matching parts of the document",
 "For every valid JSON document (object or array at the top) and every path query without filters, serial execution returns exactly the values whose path matches the query, each once, in document (end-of-value) order, each as the verbatim text of that value. This covers child, wildcard, descendant, [*], [i], [a:b], [a:], [:b] steps and $ alone, any nesting and any white space.",
 ["inputs", "programs"], "every JSON text and every query built from the supported steps",
 "the suite runs seven fixed queries on a few data files and mostly prints results; which of the combinations of steps, nesting, repeated keys, empty containers and white space are wrong cannot be seen from them",
 [J + "path_processor.h", J + "streaming_automaton.c", J + "lexing.c", J + "output.h", D + "src/dfa_builder.cpp"],
 M(("obj_s/obj_e/ary_s/ary_e/pmt handling", J + "streaming_automaton.c"), ("serialPartialRun", J + "path_processor.h"), ("result list", J + "output.h"))),
("C02", "Filters keep exactly the elements whose condition holds",
 "A filter [?(condition)] keeps, among the elements it is applied to, exactly the objects whose properties make the condition true (a repeated property counts with its last value), whatever the order of the properties inside the object. The result of the query holds exactly the matching values that lie in (or are) kept objects, in document order: values found for one object never leak into another and never survive when the condition is false. This holds for filters at any step, for several filters in one query, and also when the document is run in parallel chunks or load by load.",
 ["inputs", "programs"], "every document and every filter built from comparison, logical and existence conditions",
 "tests use one or two filters on fixed data; property order, missing properties, several elements and nesting interact",
 [J + "predicate.c", J + "predicate.h", J + "tuple_list.h", J + "streaming_automaton.c", "JSONPathParser/jsonpath_evaluator.h"],
 M(("generatePredicateResult/evaluation of each element", J + "predicate.c"), ("tuple list", J + "tuple_list.h"))),
("C03", "Parallel execution returns the same result as serial execution",
 "For every document and every path query, splitting the document into any number of chunks (at the positions the system itself chooses, or any position just before the opening quote of a string that follows one of , { [) and running the chunks in parallel gives the same list of results, in the same order, as running the whole document serially.",
 ["inputs", "programs", "configurations"], "every document, query, chunk count and admissible chunk boundary",
 "tests run one chunk count on one document per query; every boundary inside every nesting situation matters",
 [J + "parallel_automata_execution.h", J + "worker_automaton.c", J + "unit.h", J + "multi_stack.h", J + "path_processor.h"],
 M(("path enumeration from unknown start states", J + "worker_automaton.c"), ("combine", J + "parallel_automata_execution.h"))),
("C04", "Learned constraints never change the result",
 "Running in parallel with structural knowledge learned from any sample document gives the same results as serial execution on every document, including documents whose structure differs from the sample.",
 ["inputs", "programs", "configurations"], "every sample document, every target document, every chunking",
 "tests learn from and run on the same data", [J + "constraint.h", J + "parallel_automata_execution.h", J + "worker_automaton.c", J + "unit.h"],
 M(("collectMoreInfo/updateStateInfo", J + "constraint.h"), ("speculative start states and reprocessing", J + "parallel_automata_execution.h"))),
("C05", "Parallel execution does not depend on the thread schedule",
 "The result of parallel execution does not depend on the order or interleaving in which its worker threads run: no two threads touch the same memory without synchronisation when one of them writes, and every order of running the workers gives the same result.",
 ["schedules", "inputs"], "every interleaving of the worker threads, every document and chunking", "tests see a handful of schedules",
 [J + "parallel_automata_execution.h", J + "worker_automaton.c", J + "path_processor.h"], M(("thread creation and join", J + "parallel_automata_execution.h"))),
("C06", "Partitioning loses nothing and cuts only at safe places",
 "Partitioning an in-memory stream or a file into n chunks yields chunks whose concatenation is the whole text, none of them lost or duplicated, whose count is the one reported; every chunk except the first starts at the opening quote of a string that follows one of , { [ outside any string.",
 ["inputs", "configurations"], "every JSON text and every requested number of chunks", "tests partition two files into fixed numbers of chunks",
 [J + "file_partition.c", J + "path_processor.h"], M(("partitionInputStream / partitionFile", J + "file_partition.c"))),
("C07", "Bounded loading and chunk-by-chunk execution lose nothing",
 "Loading a file through bounded-size loads returns, load by load, exactly the bytes of the file in order and then reports the end; running a query chunk after chunk over such loads, keeping the streaming context, gives the same results as running it on the whole document at once. The same holds when each load is in turn run as parallel chunks, with or without learned constraints.",
 ["inputs", "configurations"], "every file content, load limit and cut position", "the load limit is 250 MB in the tests, so a second load never happens",
 [J + "path_processor.h", J + "streaming_automaton.c"], M(("loadBoundedInputStream", J + "path_processor.h"), ("serialPartialRun with a kept context", J + "path_processor.h"))),
("C08", "A JSON text is split into exactly its tokens",
 "For every valid JSON text the tokens delivered are exactly its braces, brackets, commas, keys and primitive values in order, with the exact text of keys (without quotes) and primitives, wherever white space and line breaks stand and whatever characters or escapes the strings contain; after the last token only end-of-text follows.",
 ["inputs"], "every valid JSON text", "there is no tokenizer test over odd white space, escapes, signs or structural characters inside strings",
 [J + "lexing.c", J + "utility.c"], M(("nextToken", J + "lexing.c"))),
("C09", "A query text is parsed into exactly its structure",
 "Every well-formed query (a single line of text) is parsed into the steps, names, index ranges and filter expressions it denotes, with the usual precedence and associativity of the operators (! first, then * / %, + -, comparisons, &&, ||) and with parentheses respected, wherever blanks stand between its tokens; a malformed query is rejected.",
 ["inputs", "programs"], "every query text", "tests parse a handful of queries and print the tree",
 ["JSONPathParser/parser_j.y", "JSONPathParser/scanner_j.l", "JSONPathParser/jsonpath_model.h", "JSONPathParser/jsonpath_parser.h"], M(("grammar", "JSONPathParser/parser_j.y"), ("scanner", "JSONPathParser/scanner_j.l"))),
("C10", "The automaton built for a query accepts exactly the query's paths",
 "For every query, the compiled automaton driven along any sequence of keys and array entries reaches an output state exactly when that path matches the query, reports for each step the index range the query gives, and marks filtered steps as such.",
 ["programs", "inputs"], "every query and every path through a document", "tests print transitions of a few queries",
 [D + "src/dfa_builder.cpp", D + "include/dfa_builder.h", "JSONPathParser/jsonpath_evaluator.h"], M(("DFA builder", D + "src/dfa_builder.cpp"))),
("C11", "Combining and compressing automata preserves their language",
 "Combining the automata of several rules gives one automaton that lives exactly as long as some of them does and reports the last of those that accept (none when none does), from the start state of each condition, and compressing the transition table changes no transition.",
 ["programs", "inputs"], "every set of automata and every input word", "tests combine a few fixed expressions", [D + "src", D + "include"], M(("DFA combination and compression", D + "src"))),
("C12", "An automaton built from a regular expression accepts its language",
 "For every regular expression over the supported operators (concatenation, alternation, repetition, optional, character sets) the automaton built from it accepts exactly the words of the expression, including the empty word.",
 ["programs", "inputs"], "every regular expression and every word", "tests print the automata of a few expressions", [D + "src", D + "include"], M(("syntax tree, followpos construction", D + "src"))),
("C13", "Character-set notation denotes exactly its characters",
 "Parsing a bracket notation such as [a-z0-9_], [^...] or an escape gives a set that contains exactly the characters it denotes; union, containment, negation and copying behave as on mathematical sets.",
 ["inputs"], "every notation and every character", "tests use two notations", [D + "src/Lexer/charset.cpp", D + "include/Lexer/charset.hpp"], M(("CharSet", D + "src"))),
("C14", "Character equivalence classes separate exactly what must be separated",
 "Given any list of character sets, two characters are put in the same equivalence class exactly when every set contains both or neither, and converting a set to classes loses nothing.",
 ["inputs"], "every list of character sets", "tests use one list", [D + "src", D + "include"], M(("EquivalenceClass", D + "src"))),
("C15", "Filter expressions evaluate according to arithmetic and logic",
 "Evaluating a filter expression over given operand values gives the value of ordinary arithmetic, comparison and logic (numbers, strings, true/false, existence), for every operand value including negative numbers, zero and empty strings.",
 ["inputs", "programs"], "every expression tree and every operand value", "tests evaluate a couple of conditions", ["JSONPathParser/jsonpath_evaluator.h", J + "predicate.c"], M(("expression evaluation", "JSONPathParser/jsonpath_evaluator.h"))),
("C16", "Stacks, result lists and tables behave as their abstract types",
 "Under any sequence of operations the state stacks behave as stacks, the result and tuple lists as sequences, and the learned-constraint table as a map from a name and kind to states: nothing is lost, reordered, aliased or invented, and copies are independent.",
 ["histories"], "every sequence of operations", "there is no direct test of them", [J + "stack.h", J + "multi_stack.h", J + "tuple_list.h", J + "output.h", J + "constraint.h", J + "unit.h"], M(("containers", J + "stack.h"))),
("C17", "Memory safety on every input within the stated capacities",
 "On every valid document, every valid document that breaks off anywhere, and every query within the stated capacities, execution (serial, parallel, load by load) reads and writes only memory it owns, never uses freed or uninitialised memory to decide a result, never divides by zero, and terminates; tokenising, partitioning and loading do so for any bytes at all, and query parsing for any text.",
 ["inputs", "configurations"], "every document, query, chunking within capacities", "tests run without sanitizers on a few inputs", [J + "path_processor.h", J + "lexing.c", J + "streaming_automaton.c", J + "worker_automaton.c", J + "utility.c"], M(("buffers and ownership", J + "path_processor.h"))),
("C18", "The generated scanner run-time follows the automaton it was given",
 "The run-time used by generated query code moves between states exactly as the compressed automaton does, for every state and every input class, and its scanner splits a text into the tokens the automaton dictates, following the actions (return, ignore, change of start state, push, pop).",
 ["inputs", "programs"], "every automaton, state, input class and text", "tests touch it only through fixed examples", [D + "interface"], M(("run-time transition function", D + "interface"))),
]
NA = {}
NOTE = {}
