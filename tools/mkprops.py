#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that edits are reviewable)."""
import json, os
CPE = "src/configparserenhanced/ConfigParserEnhanced.py"
P = []
def p(id, title, stmt, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=stmt,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])))

p("C01", "A resolved section is the in-order expansion of its `use` graph",
  "Reading a section returns exactly the options of that section with every `use` replaced, in place and depth first, by the options of the section it names, preceded by the options of the default section. For a key that is visited several times the last visited value wins and the key keeps the position of its first visit; options whose operation has a handler (including `use` itself) never appear, and every other option does, with surrounding blanks and double quotes removed from its value. A `use` of a section that does not exist is always a KeyError.",
  ["inputs", "configurations"], "every set of sections, every use graph over them (chains, diamonds, repeated and nested uses), every option order, value and default section",
  "the number of graph shapes and override orders is unbounded; tests read a few fixed files and mostly check single keys",
  [CPE], [("recursive section walk", CPE + ":_parse_section_r"), ("use handler", CPE + ":_handler_use"), ("generic option store", CPE + ":_launch_generic_option_handler")],
  "contents returned by the section accessors, compared entry by entry and in order")
p("C02", "Cyclic `use` graphs always terminate and are cut exactly at the back edge",
  "Parsing terminates for every use graph. A `use` that names a section still being expanded (the section itself, an ancestor, or the root while its default section is expanded) contributes nothing and raises a ValueError only when the exception control level is 5, while every other `use`, including a repeated one of an already finished section, is expanded normally; the rest of the section is processed as if the offending `use` were absent.",
  ["inputs", "configurations"], "every directed use graph including self loops, mutual, long and nested cycles, diamonds, cycles through the default section, at every exception control level",
  "tests contain two or three hand written cycles at one level and never cycles through the default section",
  [CPE], [("active section set", CPE + ":_handler_use"), ("entry and exit of a section", CPE + ":_parse_section_r")],
  "accessor results, handler call log and exception class, with a time limit")
p("C03", "Handlers run exactly once per matching option, in order, correctly nested",
  "Parsing a section calls the initialize handler first, then for each option in expansion order exactly one handler (the handler of its operation, or the generic one), and the finalize handler last, once each and only for the section being parsed; with initialize or finalize turned off that call (and for initialize also the default section) is skipped. Each handler sees the section it occurs in, the root section, its own operation, parameters, raw option and value, and the enter and exit notifications of nested sections lie strictly inside those of the `use` that caused them.",
  ["inputs", "configurations"], "every use graph, every mix of handled and unhandled operations, every initialize/finalize setting",
  "order, multiplicity and nesting must hold for all graphs and handler sets; tests count events for a few files",
  [CPE, "src/configparserenhanced/HandlerParameters.py"], [("handler dispatch", CPE + ":_parse_section_r"), ("entry/exit wrapper", CPE + ":operation_handler"), ("parameter object per level", CPE + ":_new_handler_parameters")],
  "calls received by handlers of a subclass and by enter_handler/exit_handler overrides")
p("C04", "Option keys split into operation and parameters by shell rules",
  "The key of an option is split into words by POSIX shell quoting rules; if the first word consists only of letters, digits, `_` and `-` it is the operation, with every `-` turned into `_`, and the remaining words are passed verbatim as parameters, so a quoted parameter keeps its blanks, dashes and other characters. If the first word has any other character, or no handler exists for the operation, the option is kept as an ordinary option under its full original key; a key with unbalanced quoting is a ValueError.",
  ["inputs"], "every key text: quotes, escapes, blanks, dashes, punctuation, empty parameters, non-ASCII letters",
  "the input space is all strings; tests use a handful of keys",
  [CPE], [("tokenizer", CPE + ":_tokenize_option_key"), ("operation and parameters", CPE + ":_get_op_components_from_tokenized_option_key"), ("handler lookup", CPE + ":_locate_handler_method")],
  "operation/parameters given to handlers and keys of the resolved section")
p("C05", "Handler data is shared within one parse and isolated from everything else",
  "All handlers of one parse, at every nesting depth, work on one shared dictionary, which the parse returns and which is remembered as the last result. It starts empty for every parse, and nothing that handlers or callers put into it or into the parameter objects leaks into another parse, another section level, another instance, or a later parse after a failure.",
  ["histories", "inputs"], "every sequence of parses, on one or several instances, of every use graph, including parses that fail half way",
  "leaks need a particular sequence of parses; tests look at one parse at a time",
  [CPE, "src/configparserenhanced/HandlerParameters.py", "src/configparserenhanced/TypedProperty.py"], [("shared state copy", CPE + ":_new_handler_parameters"), ("last result", CPE + ":parse_section")],
  "values seen by handlers, parse results and last results across interleaved parses")
p("C06", "Lazy access is transparent: results do not depend on what was read before",
  "Whatever sequence of section, option, iteration, membership, validation, unroll and parse calls was made before, an accessor returns the same contents or raises the same class of error as it would on a fresh instance, apart from explicit edits made by the caller, which persist. A section is parsed at most once unless a new parse is requested, and a parse that failed is neither remembered as a success nor allowed to hide the error from later calls.",
  ["histories", "inputs"], "every interleaving of accessor calls, edits and failed calls, on every configuration",
  "the bug shows only after a particular history; tests exercise each accessor on a fresh object",
  [CPE], [("lazy section parse", CPE + ":ConfigParserEnhancedData._parse_owner_section"), ("parsed marker", CPE + ":ConfigParserEnhancedData._sections_checked"), ("accessors", CPE + ":ConfigParserEnhancedData.get")],
  "return values and exceptions of every accessor after random and enumerated histories")
p("C07", "Reconfiguring an instance makes it behave like a new one",
  "After assigning a new file list or new delimiters, every result (sections, options, parse results, last result, unrolled text and derived environment actions) is what a new instance with the current settings would give, and nothing of the old files survives. A rejected assignment raises and leaves the previous configuration fully in effect.",
  ["histories", "configurations"], "every sequence of reads, edits, reassignments (valid or rejected) and file changes on disk between them",
  "needs read, reassign, read sequences over every derived value; tests check two private attributes",
  [CPE, "wip/setenvironment/src/setenvironment/SetEnvironment.py"], [("file list setter", CPE + ":inifilepath"), ("delimiters setter", CPE + ":configparser_delimiters"), ("reset", CPE + ":_reset_configparserdata")],
  "accessor results before and after reassignments")
p("C08", "Loading merges files in order and never hides a load failure",
  "The configuration is the option-wise merge of all listed files, later files overriding earlier ones per option, with keys kept case sensitive, keys without a value allowed, and percent interpolation resolved within the section. If the list is empty, or a file is missing, is a directory, or is malformed (a duplicate option or section, text outside a section), every access raises, the first time and every later time, and no partial configuration is ever visible.",
  ["inputs", "histories", "fault_sequences"], "every list of files and contents, every combination of faulty and good files, every number of retries, files repaired or broken in between",
  "retry after a failure and multi-file override combinations are not sampled by tests",
  [CPE], [("lazy load", CPE + ":configparserdata"), ("path list", CPE + ":inifilepath")],
  "accessor results and exception classes on repeated access")
p("C09", "Unrolled text reads back as the same resolved configuration",
  "The text produced for all sections or for one section lists exactly the resolved sections and options in order, and loading it as an .ini file yields the same resolved contents (a missing value may become an empty one); writing to a file object writes exactly that text. Producing it, successfully or not, does not change the settings, contents or later behaviour of the instance, and a missing section is a KeyError.",
  ["inputs", "histories"], "every configuration, section choice, spacing, base-class choice, delimiters, default section and history",
  "round trips must hold for all contents (multi-line, percent, empty values) and after all histories; tests compare two fixed outputs",
  [CPE], [("text generation", CPE + ":unroll_to_str"), ("write", CPE + ":write")],
  "the text, the configuration obtained by loading it, and settings/results afterwards")
p("C10", "Validation reports a section exactly when it has an unhandled option",
  "Checking a section reports a problem exactly when its resolved contents, over its whole `use` closure and the default section, are not empty, and checking a file does so exactly when some section does. The report is a ValueError when the exception control level is 3 or more (and raising was not turned off), otherwise a nonzero return value, and success is the return value 0; what a failing check tells, in its message and on the standard output, names every unhandled option of the section or of all sections, and no handled one; the list of known operations is exactly the set of operations having a handler.",
  ["inputs", "configurations", "histories"], "every configuration, every set of handlers, every level and raise flag, before or after other accesses",
  "the equivalence must hold for every graph and handler set; tests try two files",
  [CPE], [("section check", CPE + ":assert_section_all_options_handled"), ("file check", CPE + ":assert_file_all_sections_handled"), ("operation list", CPE + ":get_known_operations")],
  "return values, exceptions and the reported operation list")
p("C11", "Exception control decides raise, warn or stay silent by level and severity",
  "An event raises its exception, with its message, exactly when the control level is at least 5 for SILENT and WARNING, 4 for MINOR, 3 for SERIOUS, 2 for CRITICAL and always for CATASTROPHIC; otherwise a warning is printed, unless the level is 0, warnings are silenced or the event is SILENT, and execution continues. The level is clamped to 0..5 and defaults to 4, flags accept only booleans, an invalid assignment changes nothing, and instances do not influence each other.",
  ["histories", "configurations", "inputs"], "every sequence of level and flag assignments and events, every severity spelling, exception class and message, several instances",
  "the matrix combined with assignment histories is larger than the sampled cases",
  ["src/configparserenhanced/ExceptionControl.py"], [("event decision", "src/configparserenhanced/ExceptionControl.py:exception_control_event"), ("level setter", "src/configparserenhanced/ExceptionControl.py:exception_control_level")],
  "exceptions raised, message text and whether anything was printed")
p("C12", "Handler return codes and ambiguous handlers escalate by severity",
  "After a handler returns, 0 continues silently, 1 to 10 is a WARNING event, more than 10 always raises RuntimeError, and a non-integer is a TypeError; an event that is not raised lets the parse continue with the next option. When both a public and a private handler exist for an operation the parse fails with an ambiguity error at level 3 or more, and otherwise uses the public one only.",
  ["inputs", "configurations"], "every return value and its position in every use graph, every handler set, every level",
  "tests call the checking helper with a few values rather than whole parses",
  [CPE], [("return code check", CPE + ":_check_handler_rval"), ("ambiguity check", CPE + ":_locate_handler_method")],
  "exception class, handler call log and resolved contents")
p("C13", "Typed properties accept only valid values and keep state per instance",
  "Assigning a value of a type not allowed is a TypeError and a value rejected by the validator is a ValueError, and after any failed assignment (including one failing in conversion or transformation) the previous value, or the unassigned state, is still in effect. A successful assignment stores the converted, transformed value; reading before assignment gives a fresh copy of the default (or the factory result) or an UnboundLocalError if assignment is required, deletion returns to the unassigned state, and values and mutable defaults are never shared between instances.",
  ["histories", "configurations", "inputs"], "every property configuration (types, default, factory, conversion, transform, validator, required) and every sequence of reads, assignments, deletions and mutations on several instances",
  "stateful sequences over option combinations are not sampled by tests",
  ["src/configparserenhanced/TypedProperty.py", "src/configparserenhanced/HandlerParameters.py"], [("getter/setter/deleter", "src/configparserenhanced/TypedProperty.py:typed_property"), ("handler parameter fields", "src/configparserenhanced/HandlerParameters.py:HandlerParameters")],
  "values read and exceptions raised")
p("C14", "Debug output obeys its level and never changes results",
  "A debug message is printed exactly when the debug level is at least the level of the message, prefixed with that level if it is positive and the prefix is wanted, with the requested line ending; the level is an integer never below 0. Whatever the debug level is, and however it changes during a history, parse results, section contents, handler calls and exceptions are the same as at level 0.",
  ["configurations", "histories"], "every debug level, message level, option and every configuration and call history",
  "neutrality must be compared across levels for whole histories; tests only check printing",
  ["src/configparserenhanced/Debuggable.py", CPE], [("message gate", "src/configparserenhanced/Debuggable.py:debug_message"), ("logging in the parser", CPE + ":_loginfo_add")],
  "captured output, and results of identical histories at different levels")

SE = "wip/setenvironment/src/setenvironment/SetEnvironment.py"
p("S01", "The action list of a section is the ordered, pruned expansion of its operations",
  "The actions recorded for a section are its environment variable and module operations in expansion order through `use` and the default section, each with its name and value; a remove operation deletes exactly the earlier actions on the named variable (or the earlier module actions on that module or whose value contains its name) and leaves later ones and all others alone. Actions of a section do not depend on which other sections were parsed before or on repeated parses.",
  ["inputs", "histories"], "every section graph and operation order, every position of removes, every parse history",
  "combinations of removes, nesting and histories are not enumerated by tests",
  [SE], [("action handlers", SE + ":_helper_handler_common_envvar"), ("removal", SE + ":_handler_envvar_remove"), ("module removal", SE + ":_handler_module_remove"), ("storing", SE + ":handler_finalize")],
  "the actions mapping after parses")
p("S02", "Applying a section transforms the environment exactly as its actions say",
  "Applying a section performs its actions in order: set, set-if-empty, append and prepend with the path separator, unset, remove all occurrences of a substring, remove all equal path entries, find an executable in the path (empty if absent), with variable references in values expanded from the environment at that moment; values may contain any characters, including quotes and backslashes. No other variable is changed, a failed assert-not-empty stops with an exception after the earlier actions took effect and before later ones, and the result is 0 on success.",
  ["inputs", "histories"], "every action sequence, every initial environment, every value text",
  "sequences of operations on the same variable from arbitrary initial environments are unbounded",
  [SE], [("apply", SE + ":apply"), ("operation semantics", SE + ":envvar_op"), ("command generation", SE + ":_gen_actioncmd_envvar")],
  "the process environment before and after, and exceptions")
p("S03", "Generated scripts have the same effect as applying the section",
  "The script generated for a section, run by its interpreter from the same initial environment, leaves the environment variables exactly as applying the section does, both for Python and for bash, whether obtained as text or written to a file. Header, body and shebang appear exactly when requested, generating changes neither the environment nor the actions, and an unknown interpreter is a ValueError at level 3 or more and otherwise produces nothing.",
  ["inputs", "configurations"], "every action sequence, initial environment and flag combination",
  "tests compare fixed script text and never execute it against apply",
  [SE], [("script generation", SE + ":generate_actions_script"), ("file output", SE + ":write_actions_to_file"), ("bash functions", SE + ":_gen_script_header_bash")],
  "environment after running the script compared with the specification of apply")
p("S04", "Module operations reach the module system in order and failures stop the run",
  "Applying a section issues its module commands, interleaved with the variable operations in action order, one command per action with the arguments `load name[/version]`, `unload name`, `swap old new`, `use path` and `purge`. A command that fails raises a RuntimeError when the exception control level is 2 or more and stops there, and below that the remaining actions still run and the overall result is nonzero.",
  ["inputs", "fault_sequences"], "every sequence of module and variable actions, every position and kind of module command failure, every level",
  "tests mock success and a single failure",
  [SE, "wip/setenvironment/src/setenvironment/ModuleHelper.py"], [("module commands", SE + ":_gen_actioncmd_module"), ("failure policy", SE + ":_apply_module")],
  "commands received by a stand-in module command, environment and result")
p("S05", "The module command's outcome is reported faithfully and applied only on success",
  "Running a module command passes exactly the command and its arguments to the module tool and applies the environment changes it emits only when the tool exits with 0 and reports no error on its error stream. The result is 0 exactly when in addition the emitted commands do not flag a failed status, the tool's own exit code or 1 otherwise; emitted commands that fail to run raise, and a missing tool is a FileNotFoundError.",
  ["fault_sequences", "inputs"], "every combination of exit code, error output, status flag, emitted commands and argument list",
  "tests mock the subprocess with a few outcomes",
  ["wip/setenvironment/src/setenvironment/ModuleHelper.py"], [("module command", "wip/setenvironment/src/setenvironment/ModuleHelper.py:module")],
  "result, exceptions, environment, and arguments received by a stand-in tool")
MH = "wip/setenvironment/src/setenvironment/ModuleHelper.py"
p("S06", "With Lmod a module command succeeds exactly if the module system shows the requested change",
  "Where the Lmod Python interface is present, a module command passes the command and its arguments unchanged to it, in order, and passes on what the tool prints. The result is 0 exactly when the tool wrote no text containing `error:` (in any letter case) on its error stream and afterwards a loaded module is loaded, an unloaded one is not, a swap has removed the old and loaded the new one, and a used path exists, and nonzero otherwise; a failure inside the interface raises, a missing Lmod (LMOD_CMD empty or unset) is a FileNotFoundError, and applying the actions of a section reports the failing command by the same rules as without Lmod.",
  ["fault_sequences", "inputs", "histories"], "every command, argument list, tool output, state of the module system before and after, and sequence of commands",
  "no Lmod installation takes part in the tests, and the outcomes combine",
  [MH], [("module command", MH + ":module")],
  "result, exceptions, output, and calls and state of a stand-in module system")
p("S07", "Listings show exactly the actions and the variables asked for, and change nothing",
  "Listing the actions of a section prints one line per action, in order, each with the operation and its operands (a module without version is shown as the default version, an unset without value, prepending and appending with the old value after or before the new one); a missing section is a KeyError. Listing the environment shows every variable with its value when no filter is given; with filters it shows the value of exactly those variables whose name contains one of the filter strings and the bare names of the others, or omits the others when only the filtered ones are wanted. No listing changes the environment, the actions or the module system, and listing again shows the same.",
  ["inputs", "histories"], "every section, environment, list of filters and history of listing and applying",
  "the tests only check that a listing can be printed",
  [SE], [("actions", SE + ":pretty_print_actions"), ("variables", SE + ":pretty_print_envvars")],
  "printed text, and environment, actions and module calls before and after")
KP = "wip/keywordparser/keywordparser/KeywordParser.py"
p("K01", "Keyword values are the validated, comment-free lines of an option",
  "The values of an option are its lines in order with comments (from `#` to the end of the line) and surrounding blanks removed and empty lines dropped. The program exits with an error, naming the offenders, exactly when a value is repeated, contains whitespace or an underscore (other than the two selection keywords), or equals a key of the section; the key lookup returns the key whose values contain the given value and exits with an error if there is none or a key is invalid.",
  ["inputs", "histories"], "every section contents and every line, comment and blank layout",
  "the text layouts and validation combinations are unbounded",
  [KP], [("value extraction", KP + ":get_values_for_section_key"), ("lookup", KP + ":get_key_for_section_value")],
  "returned lists/keys and exits")
DS = "wip/determinesystem/determinesystem/DetermineSystem.py"
p("K02", "The system is chosen from host name and build name consistently",
  "The system for a host is the first one, in file order, one of whose (comment-stripped) patterns is found in the host name; the build name selects a system exactly if the system's name is a whole `_`-separated word of the lower-cased build name. More than one system in the build name, none found at all, or a build name system differing from the host's without force exits with an error, on the first and on every later query; otherwise the build name's system, if any, else the host's is the answer, and repeated queries agree.",
  ["inputs", "histories"], "every systems file, host name, build name, force flag and sequence of queries",
  "combinations and repeated queries after an error are not sampled",
  [DS], [("decision", DS + ":determine_system"), ("host match", DS + ":get_sys_name_from_hostname"), ("build name match", DS + ":get_sys_name_from_build_name")],
  "system name or exit for each query")
CK = "wip/genconfig/src/config_keyword_parser.py"
p("K03", "Configuration flags select exactly the options named in the build name",
  "For every flag, in file order, the selected option is the one among its options that is a whole `_`-separated word of the build name, the sorted list of them if a select-many flag has several, and its first option if there is none; several for a select-one flag is a ValueError, and an option listed for two flags or a flag without a selection type is an error. The options string is the `_`-joined concatenation in flag order, and after changing the build name all results are those of a new object, whatever was queried before.",
  ["inputs", "histories"], "every flags file, every build name and every sequence of queries and build name changes",
  "history dependence and word matching need many combinations",
  [CK, KP], [("selection", CK + ":parse_selected_options"), ("cache reset", CK + ":build_name"), ("options string", CK + ":selected_options_str")],
  "selected options, string, defaults and errors")
EK = "wip/loadenv/loadenv/EnvKeywordParser.py"
LE = "wip/loadenv/load_env.py"
p("K04", "The environment named by a build name is the longest literal match",
  "The environment chosen for a build name is the longest environment name of the system that occurs in it bounded by `_` or the ends, matched literally; only if there is none the environment whose longest alias so occurs; if neither occurs the program exits with an error. Duplicate aliases across environments or an alias equal to an environment name is an error, the result is prefixed with the system name, and it does not depend on earlier queries.",
  ["inputs", "histories"], "every environments file (prefix-related names, regex characters), every build name",
  "overlapping names and special characters are not enumerated by tests",
  [EK, KP], [("match", EK + ":qualified_env_name"), ("aliases", EK + ":get_aliases")],
  "the qualified name or exit")
p("K05", "Loading an environment uses consistent, fresh results for every build name",
  "For any build name the loader's system name, environment name and environment-stripped build name are those determined by the systems and environments files, the command line overriding the configured file paths and configured relative paths resolved against the configuration file; changing the build name makes all of them as for a new loader. The stripped build name drops exactly the words that are system names, environment names or aliases, and the matching-environment script ends by exporting the loaded environment's name and has the effect of applying its section.",
  ["inputs", "histories"], "every trio of configuration files, build name, force flag and sequence of queries and build name changes",
  "needs cross-component histories; the repository's own loader tests do not even run here",
  [LE, EK, DS], [("build name reset", LE + ":LoadEnv.build_name"), ("stripping", LE + ":LoadEnv.env_stripped_build_name"), ("file precedence", LE + ":LoadEnv.args")],
  "loader properties and written script")
GC = "wip/genconfig/gen_config.py"
p("K06", "A complete configuration is the canonical name for a build name, and validation leaves no trace",
  "The complete configuration of a build name is the qualified environment name followed by the options string; section names of config-specs.ini (other than supporting, upper-case ones) are accepted exactly if each is its own complete configuration under force, and whether validation succeeds, raises or exits, every later result is as if it had not been made. Flags and cmake fragment are those of the complete configuration and are produced only after a successful validation; an existing fragment file is replaced only on consent (answer or --yes) and otherwise left untouched; listings show exactly the configured flags and the configurations of the system; file arguments override the configured paths, which must exist and are relative to the configuration file.",
  ["inputs", "histories"], "every five configuration files, build name, force/yes flags and sequence of queries, including failing ones",
  "needs the interplay of five components over histories with failures; its tests do not run here at all",
  [GC, CK, LE], [("complete configuration", GC + ":GenConfig.complete_config"), ("validation", GC + ":GenConfig.validate_config_specs_ini"), ("fragment", GC + ":GenConfig.write_cmake_fragment")],
  "returned strings, written files, listings and errors")
p("K07", "The command line tools do exactly the one thing they were asked to do",
  "Running load_env with a build name applies exactly the environment chosen for it, writes the matching script and then records that script's path in the location file; asking for a listing only lists. Running gen_config does exactly the first asked for of listing the flags, listing the configurations, recording the environment loader's arguments, writing the cmake fragment, and otherwise writing the options of the complete configuration to a file whose path it records; the recorded loader arguments make load_env choose the same files, build name and force setting (paths without blanks). When anything fails the exit status is nonzero and the recorded location is left as it was.",
  ["inputs", "histories"], "every combination of command line arguments, configuration files and environment, successful or failing, and every sequence of runs",
  "the tools' own tests do not run here, and the interplay of five components and two tools has too many combinations to sample",
  [LE, GC], [("loader command", LE + ":main"), ("configurator command", GC + ":main"), ("recorded arguments", GC + ":GenConfig.load_env_args"), ("written script", LE + ":LoadEnv.write_load_matching_env")],
  "exit status, environment, written and recorded files, and a second run with the recorded arguments")
p("K08", "Sourcing the shell wrappers loads the selected environment into the right shell or reports the failure",
  "Sourcing load-env.sh runs the loader with exactly the given arguments. With --ci-mode the calling shell's variables afterwards are the selected environment applied to them; otherwise an interactive subshell has that environment (and refuses to load another one), and the caller's variables are unchanged once it is left. Without arguments, with an environment already loaded interactively, or when the loader fails, sourcing returns nonzero and neither the caller's variables nor its files change. gen-config.sh generates the configuration first and then runs cmake exactly once, in the loaded environment, with exactly the generated options and the source directory, or not at all when a cmake fragment was asked for; it returns nonzero as soon as a step fails, without doing the later ones (the exit status of cmake itself is left to the loaded shell). No temporary file of load-env.sh stays in the working directory or the temporary directory, no signal handler stays behind, and no other file is removed. (Arguments of gen-config.sh without blanks; listing the configurations through gen-config.sh is not covered.)",
  ["histories", "inputs", "fault_sequences"], "every sequence of sourcing the two wrappers in one shell, with every combination of arguments, configuration files, variables and module system outcomes",
  "nothing in the test suite sources the wrappers",
  ["wip/loadenv/load-env.sh", "wip/genconfig/gen-config.sh", LE, GC],
  [("loader wrapper", "wip/loadenv/load-env.sh"), ("its cleanup", "wip/loadenv/load-env.sh:cleanup"), ("configurator wrapper", "wip/genconfig/gen-config.sh"), ("cmake call", "wip/genconfig/gen-config.sh:gen_config_helper")],
  "status, variables of the calling and the inner shell, files, and calls of a stand-in cmake and module tool")

p("K09", "Reports say exactly what is wrong, in one framed block",
  "When the environment tools (KeywordParser, DetermineSystem, EnvKeywordParser, ConfigKeywordParser, LoadEnv, GenConfig) refuse a configuration or a build name, the report lists exactly the offending values, keys, aliases, options, systems or sections - none missing, none that is in order - or the valid choices where a choice is asked for, and names the section, flag, key or file concerned. Every report is one framed block: a rule, the lines of the text in order (the first after the kind of message, further ones in its column), one bullet per listed item, the extra lines, a rule; no line trails blanks and nothing of the text is dropped or added. While a system or an environment is chosen, one line announces each decision with the names concerned (the system and the hostname; the system, environment or alias and the build name), and a silent DetermineSystem prints nothing.",
  ["inputs", "histories"], "every configuration with any number and kind of mistakes, every query that meets them, and every text, kind, item list and extra text of a message",
  "tests fix a few messages for configurations with a single mistake; which values are listed depends on the whole configuration",
  ["wip/keywordparser/keywordparser/FormattedMsg.py", "wip/keywordparser/keywordparser/KeywordParser.py", "wip/determinesystem/determinesystem/DetermineSystem.py", LE, GC],
  [("frame", "wip/keywordparser/keywordparser/FormattedMsg.py:FormattedMsg.get_formatted_msg"), ("list", "wip/keywordparser/keywordparser/FormattedMsg.py:FormattedMsg.get_msg_for_list"),
   ("mistakes in values", "wip/keywordparser/keywordparser/KeywordParser.py:KeywordParser.get_values_for_section_key"), ("section names", GC + ":GenConfig.validate_config_specs_ini")],
  "the text of the messages and of the exceptions")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
