"""Writes /verif/properties.jsonl (the human-edited source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
CV="paconvert/converter.py"; BS="paconvert/base.py"; BT="paconvert/transformer/basic_transformer.py"
IT="paconvert/transformer/import_transformer.py"; CT="paconvert/transformer/custom_op_transformer.py"
AM="paconvert/api_matcher.py"; UT="paconvert/utils.py"; GV="paconvert/global_var.py"; MN="paconvert/main.py"
JS="paconvert/api_mapping.json"

p("C01","The input project is never touched; writes stay inside the output location",
  "Converting a file or directory never creates, changes, truncates, renames or deletes anything in the input project, and writes nothing anywhere except below the chosen output location (plus report files the user asked for). This also holds when the conversion is stopped by an error at any point: a failing read, write, directory creation or copy, or a source file that cannot be parsed.",
  ["inputs","configurations","crash_points","fault_sequences"],
  "all small project trees x option combinations x output-location shapes x one injected failure at every file-system call the conversion makes",
  "The suite only converts one fresh file to a fixed sibling path, never a directory, never with a failing file system, and never looks at the input afterwards.",
  [CV,UT,MN],[("non-inplace transfer of each file to the output path",CV+":transfer_dir/transfer_file"),("helper file is written to the output location",UT+":UtilsFileHelper.write_code")],
  ["Converter.run","paconvert CLI","file system before/after"])

p("C02","The output is a complete mirror of the input project",
  "After converting a directory, every non-hidden, non-excluded input file has exactly one counterpart at the same relative path of the output, and nothing else is there except the generated helper module (paddle_utils.py, or _paddle_utils.py when the project has a file of that name). Files that are neither Python sources nor requirements.txt are byte-identical copies; in requirements.txt a 'torch' dependency becomes 'paddlepaddle-gpu' and lines not mentioning torch are unchanged. An input path in which one of the comma-separated exclude patterns is found, a hidden entry, or a __pycache__ directory produces no output.",
  ["inputs","configurations"],
  "all project trees over a small alphabet of entry kinds up to a bounded size and depth x exclude option x shape of the output location (absent, present, nested in the input, file)",
  "No stable test converts a directory, uses exclude patterns, or has a non-Python file in its project.",
  [CV,MN],[("recursive walk with hidden/exclude filtering",CV+":transfer_dir"),("per-kind transfer: convert, requirements rewrite, copy",CV+":transfer_file")],
  ["Converter.run","output tree"])

p("C03","Output is always valid Python when the input is",
  "For every Python source that compiles, the conversion finishes without an exception and the file it writes compiles too once the '>>>>>>' line markers are stripped, in default and min mode, with and without formatting. In particular removing imports or calls never leaves an empty block and never puts code before a __future__ import.",
  ["inputs","programs","configurations"],
  "all programs from a grammar of block kinds x statements (imports in every form, converted, deleted, unsupported and misidentified API uses) up to a nesting depth, all modes",
  "Tests convert mostly straight-line module-level snippets; imports and API calls inside every kind of block, alone or next to other statements, are not enumerated.",
  [BS,IT,BT,CT,CV,UT],[("import removal with pass insertion",IT+":visit_Import/visit_ImportFrom"),("insertion of generated lines",BS+":record_scope/insert_scope"),("statement deletion",BT+":visit_Expr")],
  ["written .py file"])

p("C04","No PyTorch reference survives without a '>>>>>>' mark",
  "In default mode, every line of the output that still refers to a package the tool is responsible for (torch, torchvision, transformers, ...), after conversion of names to their full form, starts with the '>>>>>>' mark, and the original imports of those packages are gone. Every call the tool counts as not supported is visible in the output as a marked line; a run that reports zero unsupported APIs leaves no such reference at all. A use that needs helper statements in a place where no statement can precede it (lambda, comprehension, loop condition, match guard) counts as not supported and is marked.",
  ["inputs","programs"],
  "all placements of an unsupported API use (every expression/statement position, several per line, every neighbouring string/quote/bracket layout, every package of the table) up to a bound",
  "Tests assert the presence of a mark somewhere in a file for chosen snippets; they never assert that no unmarked reference remains for arbitrary layout.",
  [CV,BT,IT],[("line scan that adds the mark",CV+":mark_unsupport"),("unsupported APIs keep their full name",IT+":visit_Attribute/visit_Name; "+BT+":visit_Call/visit_Attribute"),("annotation line for unsupported class methods",BT+":trans_class_method")],
  ["written .py file","returned counts"])

p("C05","Marks are put only where something was left unconverted",
  "A line is marked '>>>>>>' only if it holds an API use that was not converted. Text in string literals, docstrings, or longer identifiers and attribute names that merely contain a package name never causes a mark, the marker only prefixes lines (the rest of each line is untouched), and a program whose APIs are all converted has no mark.",
  ["inputs","programs"],
  "all string/docstring/identifier layouts mentioning package names over a small alphabet, alone and next to converted API uses",
  "Tests compare chosen expected outputs; the line scanner's string/identifier handling is exercised on a handful of layouts.",
  [CV],[("string stripping and whole-name match in the scan",CV+":mark_unsupport"),("docstring tracking",CV+":mark_unsupport")],
  ["written .py file"])

p("C06","The conversion summary counts every API use exactly once",
  "In default mode, for every project the reported total equals the number of PyTorch API uses, successes plus failures equal the total, and each use is counted once: in the returned pair, in the printed summary and rate, and in the per-API lists of all/unsupported APIs. Counts of a project are the sums over its files, independent of file order and of how uses are distributed over lines and files.",
  ["inputs","programs","histories"],
  "all sequences of API uses of every outcome class (converted, unchanged, deleted, misidentified, unsupported; function, attribute, method) up to a length, split over one or two files in every way",
  "No test looks at the counts at all.",
  [BT,CV,CT],[("counters per API use",BT+":visit_Call/visit_Attribute/trans_class_*"),("aggregation",CV+":transfer_node/run")],
  ["Converter.run return value","log summary","--show_all_api / --show_unsupport_api lists"],
  [dict(name="all_api_map / unsupport_api_map",meaning="per-API use counts shared by all files",where=CV)])

p("C07","Code that is not PyTorch is left as it is",
  "Statements and expressions that do not use a recognised package or a tensor-like method keep their exact syntax tree through the conversion, in files with and without PyTorch imports. In particular a file that imports none of the recognised packages comes out with an identical syntax tree.",
  ["inputs","programs"],
  "every statement and expression form of the Python grammar composed to a bounded depth, with and without a torch import in the file",
  "Tests contain only the Python constructs that API samples happen to need.",
  [CV,BS,BT,IT],[("node visitors that return unrelated nodes unchanged",BT+"; "+IT),("source regeneration",CV+":transfer_file")],
  ["written .py file"])

p("C08","An API use converts the same way wherever it occurs",
  "The code generated for a PyTorch API use does not depend on where the use stands: as statement, operand, argument, default value, decorator, condition, subscript, comprehension part or in any nesting of functions, classes and blocks, the surrounding syntax tree is unchanged and the use is replaced by the same expression. Helper statements an API needs are executed in the same scope, directly before the statement containing the use; where no statement can be placed before the use within its scope and iteration (lambda, comprehension, loop condition, match guard) the use is left unconverted and marked.",
  ["inputs","programs"],
  "all one-hole syntax contexts up to depth 2 x one representative API use per rule kind, and pairs of uses in one statement",
  "Tests put each API mostly in 'result = torch.f(...)' at module level.",
  [BT,BS,IT],[("post-order rewriting of calls and attributes",BT+":visit_Call/visit_Attribute"),("placement of helper statements",BS+":scope_body_index/record_scope/insert_scope")],
  ["written .py file"])

p("C09","Every import spelling of an API converts identically",
  "However an API is made available (import torch; import torch.nn as x; from torch import nn [as x]; from torch.nn import Linear [as x]; several names per statement; imported inside a function or block), each use converts to the same code as the fully dotted spelling, for every API in the tables and every recognised package.",
  ["inputs","programs"],
  "every table entry x every import spelling that can reach it x use as call and as value",
  "Tests almost always write 'import torch' with dotted names.",
  [IT,BS],[("import map per file and name expansion",IT+":visit_Import/visit_ImportFrom/visit_Attribute/visit_Name"),("alias canonicalisation",BS+":get_canonical_torch_api")],
  ["written .py file"])

p("C10","Only the recognised packages, matched by whole name, are rewritten",
  "Imports are treated as PyTorch exactly when their first dotted component equals a recognised package name that the user has not excluded and that is not a module of the project itself (a file or directory of that name next to the importing file); everything else (torch_geometric, torchmetrics, my.torch, local modules called datasets) keeps its import statement and its uses unchanged. One import statement mixing both kinds keeps precisely the unrecognised names, and each recognised package brings in its replacement package.",
  ["inputs","configurations","programs"],
  "all package names derived from the table (exact, prefix, suffix, dotted) x import forms x mixes of up to three names per statement x local module present or not x excluded packages",
  "Tests import real torch and common libraries only; near-miss names and local shadowing are not tried.",
  [IT,GV,MN],[("package recognition",IT+":visit_Import/visit_ImportFrom"),("package table and exclusion",GV+":TORCH_PACKAGE_MAPPING; "+MN)],
  ["written .py file"])

p("C11","Declared mapping rules are applied exactly, argument by argument",
  "For every API whose rule is declarative (rename prefix, rename API, generic rule with parameter renames, defaults and unsupported parameters), each legal call shape is converted to precisely the call the table declares: every argument the user passed arrives under the declared name with its own expression, none lost, duplicated or swapped except those documented as ignored, declared defaults are added only when absent, and calls using an unsupported parameter, or an API without rule, are left unconverted and marked.",
  ["inputs","configurations"],
  "all table entries with declarative rules x all positional/keyword call shapes (prefix lengths, keyword subsets, star arguments) against an independent reference model of the table format",
  "Tests try a few call shapes per API, many of them only checked by executing on one set of values, and thousands cannot run on the installed framework.",
  [AM,BS,JS,BT],[("argument binding",BS+":parse_args_and_kwargs/change_kwargs/set_paddle_default_kwargs"),("declarative rules",AM+":GenericMatcher/ChangePrefixMatcher/ChangeAPIMatcher"),("rule lookup incl. alias and wildcard",BT+":get_api_matcher/get_attribute_matcher")],
  ["written .py file"])

p("C12","Spelling of arguments does not change the converted call",
  "For every API with a declared parameter list, passing an argument by position or by its keyword, and listing keyword arguments in any order, yields converted code in which every paddle parameter receives the same expression and the same parameters are supported or rejected (an unsupported parameter that is given as None, its default, may be dropped in one spelling).",
  ["inputs"],
  "all table entries with a parameter list x all positional/keyword splits of each argument prefix x keyword orders",
  "Tests sample two or three spellings per API.",
  [BS,AM],[("normalisation of positional and keyword arguments",BS+":parse_args_and_kwargs"),("custom rules",AM)],
  ["written .py file"])

p("C13","Output does not depend on the environment",
  "The same project with the same options gives byte-identical output files and the same counts, whatever order the operating system lists directory entries in, whatever the interpreter's hash seed, the locale, the current directory, the location of the project, or the verbosity and target of the log. (The only trace of the location is the output path in the generated 'sys.path.append' line that makes paddle_utils.py importable; exclude patterns, which are searched in the whole path, are not covered.)",
  ["schedules","configurations","inputs"],
  "all permutations of directory listing order x hash seeds x locations x log options over a set of projects that exercise every piece of cross-file state",
  "The suite fixes PYTHONHASHSEED=0, the directory and the path, and converts one file at a time.",
  [CV,IT,UT,CT],[("directory walk order",CV+":transfer_dir"),("set-valued package records",IT+":visit_Module"),("generated names and helper registry",UT)],
  ["written files","returned counts"],
  [dict(name="CPP_EXTENSION_LIST, AUTOGRAD_FUNC_NODES, unique-name counters",meaning="process-wide state filled while walking",where=CT+"; "+UT)])

p("C14","Earlier conversions do not influence later ones",
  "Within one process, the result of a conversion (files, counts, rate) is the same as if it were the first one, whatever conversions - successful, failed, of other projects, modes or output locations - ran before it.",
  ["histories"],
  "all sequences of conversions up to a length over an alphabet of projects, modes, output shapes and failing inputs; every reached process state",
  "Tests share one process but always use the same input and output path and never compare with a fresh process.",
  [UT,AM,CT,GV,CV],[("helper registry re-initialised per run",UT+":UtilsFileHelper"),("rule tables are read-only",GV),("converter-owned counters",CV)],
  ["written files","returned counts"],
  [dict(name="UtilsFileHelper instance, rule tables, CPP_EXTENSION_LIST, AUTOGRAD_FUNC_NODES, name counters",meaning="process-global mutable state",where="; ".join([UT,GV,CT]))])

p("C15","Interrupted or repeated conversions converge to the fresh result",
  "Running the conversion again into the same output location - after a completed run, or after a run that died at any file-system operation - produces exactly the files a first run into an empty location produces; no leftover of the previous attempt, or of an earlier version of an input file, survives in any generated file.",
  ["crash_points","histories","fault_sequences"],
  "every file-system call of a conversion as crash point (before, and after a partial write) followed by a re-run; re-runs after content edits of the input",
  "No test runs a conversion twice into one place or interrupts it.",
  [CV,UT],[("whole-file overwrite of every output",CV+":transfer_file"),("helper code inserted after the file is rewritten",UT+":write_code")],
  ["output tree after re-run"])

p("C16","Converting converted code changes nothing",
  "Converted output without marks is a fixed point: running the tool on it again reproduces the same program (only comments the first run generated, and imports of the few further packages the tool rewrites such as setuptools, may differ) and reports no API to convert, so Paddle code is never mistaken for PyTorch code.",
  ["inputs","histories"],
  "all table entries and import/context forms that convert completely, converted twice",
  "Tests convert once.",
  [BT,BS,CV],[("only files importing a recognised package are rewritten",BS+":get_full_attr_strict"),("paddle names are excluded",BS+":get_full_attr_strict")],
  ["written .py file","returned counts"])

p("C17","Min mode keeps aligned code and still converts the rest",
  "In min mode imports of recognised packages and every use of an API whose only change is the package prefix according to the mapping tables stay as written, apart from dropped parameters that are documented as ignored (layout, generator, memory_format, sparse_grad, foreach), while each other API use is converted, or left and marked, just as in default mode; such kept uses are not marked and never count as failed.",
  ["inputs","programs","configurations"],
  "all table entries x import spellings x use forms in min mode, compared with default mode; mixes of kept, converted and unsupported uses on one line",
  "No stable test runs min mode.",
  [IT,BS,CV,AM],[("decision which uses are kept",BS+":in_min_mode"),("kept names are masked before marking",CV+":mask_change_prefix_apis"),("imports kept",IT)],
  ["written .py file","returned counts"])

p("C18","Every name generated code uses is bound before it is used",
  "Every name the output uses that the input did not define - paddle and its companion packages, generated temporaries, helper functions and classes - is bound in the output before it is used: by an import the tool added, by a generated statement in the same or an enclosing scope, or by helper code in the file (file mode) or in paddle_utils.py imported from the file (directory mode). A helper never has two different definitions, its code is not repeated when several files or lines need it, and helper code itself refers only to names it can see.",
  ["inputs","programs","configurations"],
  "all table entries and call shapes x scopes x file and directory mode; all pairs of helper-using APIs in one project",
  "Tests execute single-file module-level snippets only; directory mode and nested scopes are not executed.",
  [UT,BS,AM,IT],[("helper registry and insertion point",UT+":UtilsFileHelper"),("import of the helper module",BS+":enable_utils_code"),("import of replacement packages",IT+":visit_Module")],
  ["written .py files"])

p("C19","Converted programs compute what the original computes",
  "Every supported call is converted, and when the tool converts a program completely, running the converted program on Paddle gives the same values, shapes and dtypes (and the same stop-gradient state where the sample fixes it) as running the original on PyTorch, for every spelling of the call: arguments by position, by keyword, reordered, through variables, optional ones left out, and every parameter set to each value known for it, alone and in pairs. Programs are those Paddle 3.3.1 can run and whose plain call it computes alike.",
  ["inputs","programs"],
  "every recorded API sample (1600 APIs) x all argument spellings, optional-argument omissions, parameter values and pairs of parameters, as far as both frameworks run it",
  "Tests execute each sample in one spelling and one context; the variations are where conversion rules branch.",
  [AM,BS,JS],[("conversion rules",AM),("rule tables",JS)],
  ["results of executing original and converted program"])

p("C20","Argument and receiver expressions are carried over whole",
  "Where a PyTorch call with a variable as argument (or as receiver of a tensor method) is converted, the same call with any compound expression in that place - operators of any precedence, conditional, lambda, comprehension, subscript, nested call, strings with quotes, braces or backslashes, expressions longer than a line - converts to the same code with the expression in the variable's place as one unit, and is supported or marked alike. Literal values, which rules may inspect, are excepted.",
  ["inputs","programs"],
  "all table entries x call shapes x each argument and the receiver x one compound expression of every precedence and printing class",
  "Tests pass variables and literals; rules that paste argument text into templates only break with compound expressions.",
  [AM,BS],[("argument text pasted into code templates",AM),("receiver and argument printing",BS+":parse_args/parse_kwargs/parse_func")],
  ["written .py file"])

p("C21","Reports and command line tell and do the same as the conversion itself",
  "Logging and reporting options (show_all_api, show_unalign_api, show_unsupport_api, log_markdown, calculate_speed, log target and level), in any combination, neither make a conversion fail nor change its files, counts or rate. The list of all APIs names every API used with its number of uses, the not-supported list exactly the uses that were not converted, the unaligned list exactly those torch APIs of the first list whose rule is more than a change of the prefix, and the written tables agree with the log. Running the command line gives the same output files as the library call with the same options.",
  ["configurations","inputs"],
  "all subsets of the reporting options x log targets and levels x projects; all command-line flags x projects; all table entries and all pairs of counted statements with all lists shown",
  "No stable test uses a reporting option or the command line.",
  [CV,MN],[("reports after the conversion",CV+":run"),("argument parsing",MN+":main")],
  ["Converter.run","log","table files","paconvert CLI","output tree"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
