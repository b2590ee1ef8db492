"""Writes /verif/properties.jsonl (kept as code so that ids, titles and texts stay consistent)."""
import json
import os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    d = {"id": pid, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


CLI = ["exit status, stdout and stderr of the selint command"]

prop("C01", "Any bytes in a policy file are handled or rejected, never crash or hang",
     "Whatever bytes a .te, .if or .fc file contains, a selint run over it terminates, reads and writes only memory it owns, and ends with one of its documented exit statuses (success, findings, unusable input). It never dies from a signal, never loops without bound and never aborts inside a library.",
     ["inputs"], "all byte contents of one or more .te/.if/.fc files, alone and in combination, with any subset of checks",
     "The suite runs selint on a few dozen hand written files; memory errors sit in rare token combinations, truncated lines and odd nesting that only generated and mutated input reaches.",
     ["src/parse.y", "src/lex.l", "src/parse_fc.c", "src/template.c", "src/ordering.c", "src/tree.c"],
     [("yyparse_wrapper", "src/parse.y"), ("YY_INPUT line cache", "src/lex.l"), ("parse_fc_line", "src/parse_fc.c"), ("add_template_declarations", "src/template.c"), ("free_policy_node", "src/tree.c")],
     CLI + ["AddressSanitizer/UBSan reports"])
prop("C02", "Support files, configuration and options never crash or hang selint",
     "Whatever bytes modules.conf, access_vectors, obj_perm_sets.spt or the configuration file contain, and whatever option list is given, selint terminates with a documented exit status and touches only its own memory. Unusable support files lead to a warning and a run with fewer checks, an unusable configuration or command line to a refusal.",
     ["inputs", "configurations"], "all byte contents of the four support files and all argument vectors over selint's options",
     "Support-file loaders are exercised by the tests only with well-formed samples; overruns at end of file, self-referential macros and option interactions need generated inputs.",
     ["src/startup.c", "src/selint_config.c", "src/main.c", "src/perm_macro.c", "src/maps.c"],
     [("load_modules_source", "src/startup.c"), ("load_access_vectors_source", "src/startup.c"), ("load_obj_perm_sets_source", "src/startup.c"), ("parse_config", "src/selint_config.c"), ("main", "src/main.c"), ("compute_perm_mask", "src/perm_macro.c")],
     CLI + ["AddressSanitizer/UBSan reports"])
prop("C03", "The supported policy language is accepted and deviations are located",
     "Every file written in the supported refpolicy dialect (all statement kinds, nesting, set notations, quoting and comment placements) is accepted without a fatal finding. A file made invalid by a single syntactic slip is rejected: only F-001 findings are printed, all of them for that file, the first of them at the slip's statement or its next token and each quoting the file's own lines, followed by a 'failed to parse' error and the software-error exit status; no other check reports anything.",
     ["inputs", "programs"], "all statement sequences derivable from the refpolicy statement grammar; all single token deletions, insertions or swaps that leave the dialect",
     "Test fixtures contain each statement kind once or twice in one layout; acceptance must hold for all combinations of kinds, nesting and layout.",
     ["src/parse.y", "src/lex.l", "src/runner.c"],
     [("grammar", "src/parse.y"), ("tokens", "src/lex.l"), ("yyerror", "src/parse.y"), ("run_analysis", "src/runner.c")], CLI)
prop("C04", "Findings point at the statement's line and ignore layout",
     "Each finding carries the base name of the file and the number of the line on which the offending statement starts. Adding blank lines, indentation, comments, trailing blanks or line breaks inside statements, or changing line ends to CRLF, changes no finding except for the corresponding line numbers (C-001 excepted: its section order uses average line numbers).",
     ["inputs", "programs"], "all policy projects and all layout changes of their files",
     "Line bookkeeping depends on lexer state, multi-line statements and block nesting; the tests compare a handful of fixed line numbers.",
     ["src/lex.l", "src/parse.y", "src/parse_functions.c", "src/check_hooks.c"],
     [("YY_USER_ACTION", "src/lex.l"), ("@$.first_line", "src/parse.y"), ("insert_policy_node_next", "src/tree.c"), ("display_check_result", "src/check_hooks.c")], CLI)
prop("C05", "Exactly the selected checks run",
     "A check reports findings if and only if its severity is at or above the selected level and it is switched on: command line enables beat command line disables, which beat the configuration's enables for the current mode, which beat its disables; with only-enabled, only command line enables count. Selecting checks never alters the findings of the checks that do run.",
     ["inputs", "configurations"], "all combinations of level, -d, -e, -E, configuration severity/disable/enable_normal/enable_source, and all policy projects",
     "The selection space is a product of a dozen switches over 35 checks; tests try a few points of it.",
     ["src/runner.c", "src/main.c", "src/selint_config.c"],
     [("is_check_enabled", "src/runner.c"), ("register_checks", "src/runner.c"), ("option parsing", "src/main.c")], CLI)
prop("C06", "selint-disable comments suppress exactly what they name",
     "A selint-disable comment at the end of a statement (or after the opening of a block) suppresses findings of the named checks for that statement and no other finding: other checks on the statement, and the same checks elsewhere, report as before. All documented spellings of the comment are equivalent.",
     ["inputs", "programs"], "all policy projects, all attachable positions, all sets of check ids and all documented spellings",
     "Attachment happens in many grammar productions, each of which can lose or misplace the exception; tests cover few of them.",
     ["src/parse.y", "src/parse_functions.c", "src/check_hooks.c", "src/lex.l"],
     [("save_command", "src/parse_functions.c"), ("call_checks_for_node_type", "src/check_hooks.c"), ("SELINT_COMMAND token", "src/lex.l")], CLI)
prop("C07", "Summary, printed findings and exit status agree",
     "The summary lists, in severity order C, S, W, E and ascending number, exactly the checks that reported something with exactly the number of findings they printed, or states that there were none. The fail option yields the findings exit status if and only if at least one finding exists, summary-only hides findings without changing counts or status, and without the fail option findings never affect the status.",
     ["inputs", "configurations"], "all policy projects and all combinations of -F, -S, --summary-only, -v and check selection",
     "Counting is spread over per-node-type tables that are merged for printing; errors show only for particular mixes of findings.",
     ["src/check_hooks.c", "src/runner.c", "src/main.c"],
     [("display_check_issue_counts", "src/check_hooks.c"), ("found_issue", "src/check_hooks.c"), ("exit status", "src/main.c")], CLI)
prop("C08", "Findings do not depend on input order or repetition",
     "For a policy in which every name is declared once, running selint on the same files given in any order, by any equivalent path, by naming a directory or by naming the files it holds, and any number of times, yields the same set of findings.",
     ["inputs", "histories"], "all policy projects, all permutations of their file arguments and directory creation orders, repeated runs",
     "Directory traversal order and argument order change parse order and hash table contents; tests use one order.",
     ["src/main.c", "src/runner.c", "src/maps.c"],
     [("fts walk", "src/main.c"), ("run_analysis", "src/runner.c"), ("insert_into_decl_map", "src/maps.c")], CLI)
prop("C09", "Context files supply definitions but are never reported on",
     "A file reached only through the context option contributes its declarations, interfaces and templates to the analysis of the checked files exactly as if it were checked too, but no finding is ever attributed to it. A file reached both ways is checked.",
     ["inputs", "configurations"], "all splits of a policy project into checked and context files, several context paths, overlaps",
     "The split is a subset choice over the files of a project; tests use one fixed split.",
     ["src/main.c", "src/runner.c", "src/file_list.c"],
     [("context path walk", "src/main.c"), ("file_name_in_file_list", "src/file_list.c"), ("run_analysis", "src/runner.c")], CLI)
prop("C10", "File discovery scans exactly the requested policy files",
     "Recursive scanning checks every .te, .if and .fc file below the given directories except those inside hidden directories (unless asked to include them), never descends into directories through symbolic links, and never treats other files as policy; without the recursive option a directory is skipped with a note and only the named files are checked. Support files are recognised by name wherever they are found in source mode and ignored otherwise.",
     ["inputs", "configurations"], "all directory trees of files, directories, hidden directories and symlinks, and all discovery options",
     "The walk's behaviour depends on tree shape, name lengths and entry kinds which the tests' two fixed trees do not vary.",
     ["src/main.c"], [("fts walk", "src/main.c"), ("suffix test", "src/main.c")], CLI)
prop("C11", "te files: foreign names and require blocks are reported exactly",
     "In a te file a statement using a type, attribute or role attribute declared in another module is reported (W-001) if and only if no earlier require block of an enclosing or preceding scope names it, and a require block in a te file is reported (S-001) if and only if it requires something other than classes and permissions.",
     ["inputs", "programs"], "all policy projects: placements of declarations over modules, uses in every statement kind, and require blocks at every nesting",
     "Correctness depends on the whole project's symbol table and on scoping through nested blocks; unit tests build single nodes.",
     ["src/te_checks.c", "src/tree.c", "src/maps.c"],
     [("check_no_explicit_declaration", "src/te_checks.c"), ("has_require", "src/te_checks.c"), ("check_require_block", "src/te_checks.c"), ("get_names_in_node", "src/tree.c")], CLI)
prop("C12", "Interface requirements are complete, used and owned",
     "In interfaces and templates, a known type, attribute, role or role attribute used without being required is reported (W-002), a required one that is not used afterwards in the same block is reported unless the interface is a stub (W-003), and a required name declared in another module or nowhere is reported (W-011); nothing else is.",
     ["inputs", "programs"], "all interface bodies: uses in every statement kind, require blocks in any number, nesting and order, names declared anywhere",
     "These are whole-interface data flow facts over arbitrary bodies.",
     ["src/if_checks.c", "src/tree.c"],
     [("check_name_used_but_not_required_in_if", "src/if_checks.c"), ("check_name_required_but_not_used_in_if", "src/if_checks.c"), ("check_required_declaration_own", "src/if_checks.c"), ("get_names_required", "src/tree.c")], CLI)
prop("C13", "Template calls declare exactly what m4 expansion would declare",
     "Calling a template from a te file declares in the calling module every type, alias, attribute, role and boolean that the template and the templates it calls declare, with the call's arguments substituted positionally and missing arguments empty. A template that calls itself, directly or through others, is tolerated and does not stop the run.",
     ["inputs", "programs"], "all template definitions, call graphs including cycles, argument lists and argument forms",
     "Substitution depth, argument forms and call graph shapes are unbounded; tests use one or two templates.",
     ["src/template.c", "src/parse_functions.c", "src/maps.c"],
     [("add_template_declarations", "src/template.c"), ("replace_m4", "src/template.c"), ("insert_interface_call", "src/parse_functions.c")], CLI)
prop("C14", "File context lines are judged correctly",
     "For every file context line selint decides whether it is well formed, and reports a bad format (E-002), unknown user, role or type (E-003, E-004, E-005), a type owned by another module (S-002), a missing level in gen_context (S-007) and a suspicious unescaped regular expression character (W-004) exactly when the line has that defect, independent of blank style, file type specifier, level form or whether it is the last line of the file.",
     ["inputs"], "all file context lines over paths, specifiers, raw and gen_context contexts, levels, categories and whitespace; conditionals and custom macros between them",
     "The line parser is a hand written tokenizer whose corner cases are combinations of optional parts.",
     ["src/parse_fc.c", "src/fc_checks.c"],
     [("parse_fc_line", "src/parse_fc.c"), ("parse_context", "src/parse_fc.c"), ("parse_fc_file", "src/parse_fc.c"), ("fc checks", "src/fc_checks.c")], CLI)
prop("C15", "Interface calls are checked against definitions and module status",
     "A call is reported if and only if: it calls another, non-base module's interface outside an optional block (W-005), passes no argument (W-006), has an argument with unquoted space that is not a level range (W-007), bears a known module's prefix but no such interface exists (W-010), or calls a template from an interface (S-004).",
     ["inputs", "programs", "configurations"], "all call statements at any nesting, module statuses, argument forms and interface definitions",
     "Each verdict depends on the modules.conf map, the interface map and the nesting path.",
     ["src/te_checks.c", "src/if_checks.c", "src/maps.c"],
     [("check_module_if_call_in_optional", "src/te_checks.c"), ("check_empty_if_call_arg", "src/te_checks.c"), ("check_space_if_call_arg", "src/te_checks.c"), ("check_unknown_interface_call", "src/te_checks.c"), ("check_if_calls_template", "src/if_checks.c")], CLI)
prop("C16", "Permission lists, classes and self rules are judged correctly",
     "Rules are reported exactly when their permission list is out of order or repeats an entry (C-005), an allow rule grants a wildcard or complement (W-008), a permission or class is unknown to the loaded definitions (E-007, E-008), or source and target are the same single type (C-007). The checks that need loaded definitions announce that they are skipped when there are none.",
     ["inputs", "programs", "configurations"], "all rules over rule kinds, sets, complements, wildcards, classes, class sets and permission macros; presence or absence of support files",
     "The verdicts depend on set notation and on support files in combination.",
     ["src/te_checks.c", "src/startup.c", "src/maps.c"],
     [("check_unordered_perms", "src/te_checks.c"), ("check_risky_allow_perm", "src/te_checks.c"), ("check_unknown_permission", "src/te_checks.c"), ("check_unknown_class", "src/te_checks.c"), ("check_no_self", "src/te_checks.c")], CLI)
prop("C17", "Permission macro suggestions are sound",
     "A permission macro whose suffix does not fit the rule's classes is reported (S-009). A suggested replacement (S-010) names a loaded macro of the rule's class which covers at least two of the written permissions, adds only permissions implied by those written, lists exactly the permissions it replaces and adds, is never worse than another such macro, and is absent when the rule already uses the best macro or no macro qualifies.",
     ["inputs", "programs", "configurations"], "all permission lists for the file classes and all macro definitions, nested macros included",
     "The suggestion is an optimisation over bit masks and all loaded macros; tests check a few fixed lists.",
     ["src/perm_macro.c", "src/te_checks.c"],
     [("permmacro_check", "src/perm_macro.c"), ("load_permission_macro", "src/perm_macro.c"), ("check_perm_macro_class_mismatch", "src/te_checks.c")], CLI)
prop("C18", "Structural checks fire exactly on their structures",
     "Undocumented interfaces (C-004), unordered, repeated or empty require blocks (C-006), stray semicolons (S-003), declarations in interfaces (S-005), bare module statements (S-006), unquoted gen_require (S-008), module name and file name mismatches (W-009), declarations clashing with interface names (E-006), empty optional or require blocks (E-009) and stray words (E-010) are each reported exactly where that structure occurs.",
     ["inputs", "programs", "configurations"], "all te and if files built from the statement grammar; all configured require orders and macro exemptions",
     "Each depends on neighbours and nesting in an arbitrary tree.",
     ["src/if_checks.c", "src/te_checks.c"],
     [("check_interface_definitions_have_comment", "src/if_checks.c"), ("check_unordered_declaration_in_require", "src/if_checks.c"), ("check_decl_in_if", "src/if_checks.c"), ("check_empty_block", "src/te_checks.c"), ("check_stray_word", "src/te_checks.c"), ("check_module_file_name_mismatch", "src/te_checks.c")], CLI)
prop("C19", "te ordering: a minimal set of misplaced lines is reported",
     "For each ordering convention, a te file that follows the documented order (declarations, then one section per domain, each section in the convention's subsection and alphabetical order) gets no ordering finding. In a file whose statements all have a place determined by that order, the lines not reported form a correctly ordered file and as few lines as possible are reported. In every file each report names a line that is itself not reported and with which the reported line is really out of order, and says truly why.",
     ["inputs", "programs", "configurations"], "all te statement sequences over sections, subsections, interface layers and blocks, for the three conventions",
     "Optimality over all subsequences of arbitrary files cannot be sampled by fixed examples.",
     ["src/ordering.c", "src/te_checks.c"],
     [("calculate_longest_increasing_subsequence", "src/ordering.c"), ("compare_nodes_refpolicy_generic", "src/ordering.c"), ("get_local_subsection", "src/ordering.c"), ("get_section", "src/ordering.c"), ("get_ordering_reason", "src/ordering.c")], CLI)
prop("C20", "Configuration settings mean what they say, or are refused",
     "Every documented setting with a documented value has its documented effect and the documented default when absent; any other value, a wrong number of ordering entries or a duplicate one makes selint refuse to run with the configuration-error status before checking anything. Command line choices override the file's severity, and a named configuration file that cannot be read is refused.",
     ["configurations", "inputs"], "all configuration files over the documented keys with valid and invalid values, in any order and layout",
     "The cross product of settings and their effects on findings is not covered by the few fixed files of the tests.",
     ["src/selint_config.c", "src/main.c", "selint.conf"],
     [("parse_config", "src/selint_config.c"), ("config handling", "src/main.c")], CLI)
prop("C21", "Symbols come from the right source in each mode",
     "In source mode classes, permissions, permission macros and module statuses come from access_vectors, obj_perm_sets.spt and modules.conf found in the scanned or context paths; in normal mode classes and permissions come from the running kernel's class directory and interfaces from the installed development headers, and the three source files are ignored. A missing or unusable support file or kernel class directory is announced, and a missing source only switches off or weakens the checks that need it.",
     ["configurations", "inputs"], "all contents of the symbol sources, their presence or absence, their location, and both modes",
     "Real systems' /sys and header trees cannot be varied by the unit tests, and loaders are only tested on one sample each.",
     ["src/startup.c", "src/main.c", "src/parse.y"],
     [("load_modules_source", "src/startup.c"), ("load_access_vectors_kernel", "src/startup.c"), ("load_access_vectors_source", "src/startup.c"), ("load_devel_headers", "src/startup.c"), ("spt and av grammar", "src/parse.y")], CLI)
prop("C22", "Output format is stable and independent of colour and verbosity",
     "Every finding is one line of the documented form whose severity letter agrees with its check id, identical for identical runs. Turning colour on only adds escape sequences, and verbose or parser-debug output only adds lines; neither changes findings, summary or exit status.",
     ["inputs", "configurations"], "all policy projects and file names, and all colour and verbosity options",
     "The relation must hold for every finding of every check.",
     ["src/check_hooks.c", "src/color.c", "src/main.c", "src/util.c"],
     [("display_check_result", "src/check_hooks.c"), ("color_severity", "src/color.c"), ("print_if_verbose", "src/util.c")], CLI)
prop("C23", "Findings are local: unrelated policy does not change them",
     "Adding or removing a module that shares no names with the rest of the policy, or adding statements to one file that concern only new names, leaves every finding about the other files unchanged.",
     ["inputs", "programs", "histories"], "all policy projects and all unrelated additions",
     "Global tables and static state inside checks are shared by all files of a run; leaks between files appear only for particular sequences of files.",
     ["src/runner.c", "src/maps.c", "src/te_checks.c", "src/ordering.c"],
     [("run_all_checks", "src/runner.c"), ("static state in check_te_order", "src/te_checks.c"), ("symbol maps", "src/maps.c")], CLI,
     state=[("symbol maps", "names declared by all parsed files", "src/maps.c"), ("order_data", "per file ordering state", "src/te_checks.c")])

prop("C24", "Command line options mean the same in every spelling, wrong ones are refused",
     "Each documented option has the same effect in its short and long form, with its value joined or separate, bundled with others, repeated (the last value of a single-valued option counts) and anywhere before, between or after the paths; everything after -- is a path. Help and version requests end with success without checking anything. An unknown option, a missing or superfluous or invalid value, an unreadable named configuration, only-enabled without an enabled check, and a line without paths are refused with a message and the usage exit status before anything is checked. Ids of no check are announced and otherwise ignored.",
     ["inputs", "configurations"], "all option sets, spellings, orders and positions, and all single mistakes in them",
     "The space of spellings, orders and combinations of sixteen options is far beyond the handful of lines the test script runs.",
     ["src/main.c", "src/check_hooks.c"],
     [("option parsing", "src/main.c"), ("is_valid_check", "src/check_hooks.c"), ("usage", "src/main.c")], CLI)
prop("C25", "Findings do not depend on how modules and their names are called",
     "Consistently renaming modules that have no special meaning, together with every name bearing their prefix, in files, file names, support files and configuration, changes the findings only by that renaming, whatever the length of the names (ordering checks excepted where the alphabetical order changes).",
     ["inputs", "programs"], "all policy projects and all consistent renamings, short to several hundred characters",
     "Fixed length buffers, prefix comparisons and special cases for certain names only show with names no test uses.",
     ["src/maps.c", "src/te_checks.c", "src/if_checks.c", "src/tree.c"],
     [("symbol maps", "src/maps.c"), ("prefix tests", "src/te_checks.c"), ("get_name_if_in_template", "src/tree.c")], CLI)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
