#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py). Kept in this form because it is easier to edit."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- blogc(1): templates
prop("B01", "Rendering a well-formed template gives exactly its documented meaning",
 "For every template that nests blocks, conditionals (ifdef, ifndef, if, else) and foreach iterators properly, and every set of global variables, sources and listing entries, the rendered text is exactly what blogc-template(7) prescribes: literal text verbatim, conditionals selecting one branch, iterators repeating their body once per list item in order, listing blocks once per source in order, the other blocks zero or one time depending on the mode. Source-local variables are visible only inside entry, listing and listing_entry blocks and in a listing never leak into any other part of the output, and whitespace control removes exactly the whitespace adjacent to the statement that asks for it.",
 ["programs", "inputs"], "all templates built from the statement vocabulary up to the stated size, times all small environments (mode, number of sources, listing entries, variables defined or not)",
 "The unit tests render a few dozen hand-written templates; interactions (block after skipped block, else after a nested conditional, iterator around a block, whitespace control next to a statement) are a combinatorial space they sample by a handful of points.",
 ["src/blogc/template-parser.c", "src/blogc/renderer.c"],
 [("template state machine", "blogc_template_parse"), ("statement interpreter with skip loops", "blogc_render"), ("scoped lookup", "blogc_get_variable")],
 [("scope of local variables", "which source, if any, provides local variables at the current statement", "src/blogc/renderer.c"), ("pending else", "whether the next else branch belongs to a conditional that was not taken", "src/blogc/renderer.c")],
 ["rendered output"])
prop("B02", "Malformed templates are rejected, well-formed ones accepted, none crashes",
 "A template whose statements are not closed, closed twice, nested where nesting is forbidden, given a second else, or syntactically truncated or misspelled is always rejected with an error, and a template that follows blogc-template(7) is never rejected. An accepted template can be rendered in every mode without crashing or hanging, and no text of an accepted template is silently dropped.",
 ["inputs", "programs"], "every sequence of template tokens and of raw template bytes up to the stated length",
 "Tests check one example per error message; acceptance is a language-membership question over all token sequences, and the dangerous cases are the prefixes and interleavings nobody wrote down.",
 ["src/blogc/template-parser.c", "src/blogc/renderer.c"],
 [("statement balance counters", "blogc_template_parse"), ("end-of-input validation", "blogc_template_parse"), ("skip to matching statement", "blogc_render")],
 [("open statements", "which block, conditional, else and iterator is currently open", "src/blogc/template-parser.c")],
 ["error return", "rendered output"])
prop("B03", "Variable lookup: precedence, date formatting, truncation and list items",
 "For every variable name used in a template the value is resolved as documented: an existing variable of exactly that name wins (local before global), otherwise a numeric suffix truncates the value of the prefix to that many leading characters, a _FORMATTED suffix on a date variable applies the configured date format, and the iterator's item and mapped value variables are available only inside the iterator. An undefined variable renders as empty text and counts as undefined in conditionals.",
 ["inputs", "configurations"], "all names built from the stem/suffix vocabulary times all assignments of local/global definitions",
 "Tests exercise a few names with one environment; precedence bugs appear only for particular combinations of suffixes and of definitions in the two scopes.",
 ["src/blogc/renderer.c", "src/blogc/funcvars.c"],
 [("suffix decomposition", "blogc_format_variable"), ("list splitting", "blogc_split_list_variable"), ("date formatter", "blogc_format_date")], None, ["variable value", "rendered output"])
# ---------------------------------------------------------------- blogc(1): sources and content
prop("B04", "Source file variables and content are separated and stored losslessly",
 "For every source file of key-value lines, separator and content, each variable gets exactly its (trimmed) value, the last definition of a key wins, everything after the separator is the content, and reserved names, bad keys and bad separators are rejected with an error. Nothing of the file is silently lost whatever its line endings, the lengths of its parts, or whether the last line is terminated.",
 ["inputs"], "all source files over the line vocabulary up to the stated number of lines and lengths, with every line-ending style",
 "Tests use a few complete posts; boundary shapes (empty value, one-byte content, missing final newline, value that looks like a separator) form a product space.",
 ["src/blogc/source-parser.c", "src/blogc/loader.c"],
 [("source state machine", "blogc_source_parse"), ("file name variable", "blogc_get_filename")], None, ["returned variables", "error return"])
prop("B05", "Block markup produces the documented HTML structure for every document",
 "A document made of paragraphs, headers, blockquotes, ordered and unordered lists, code blocks, horizontal rules and raw HTML blocks is turned into the corresponding HTML elements, one per block, in the same order, with all of the text of each block and nothing else. This holds for every order and nesting of the blocks, for LF, CR and CRLF line endings, and with or without a final line ending.",
 ["inputs", "programs"], "all documents built from the block vocabulary up to the stated number of blocks/lines, times line ending style and termination",
 "Each unit test is one document; which block follows which, where it ends and what the last line is decide correctness, and that product is never sampled systematically.",
 ["src/blogc/content-parser.c"],
 [("block state machine", "blogc_content_parse"), ("recursive blockquote", "blogc_content_parse")],
 [("current block", "kind, start and prefix of the block being read", "src/blogc/content-parser.c")], ["generated HTML"])
prop("B06", "Inline markup: styling, links, images, code, dashes, breaks and escaping",
 "Inside running text every documented inline construct yields its HTML element, a backslash makes the following markup character literal, everything else appears verbatim, and the characters & < > \" ' / of plain text, titles and code come out as HTML entities so text can never open a tag. Opening and closing tags produced for emphasis and code are always balanced when the markup is.",
 ["inputs", "programs"], "all inline token sequences up to the stated length and all well-formed inline trees up to the stated size",
 "Tests cover single constructs and a few nestings; the interplay of escapes, unterminated constructs and end of text is a language over tokens.",
 ["src/blogc/content-parser.c"],
 [("inline state machine", "blogc_content_parse_inline"), ("entity encoder", "blogc_htmlentities"), ("escaped append", "bc_string_append_escaped")], None, ["generated HTML"])
prop("B07", "Derived metadata: first header, description, excerpt and table of contents",
 "For every document the first header, the description (first paragraph) and the excerpt (the content before the excerpt separator) are the ones blogc-source(7) defines, an explicit definition in the source wins over the derived first header and description, and every header's anchor in the content is the one its table-of-contents link points to. The table of contents lists exactly the headers within the configured depth, in order, nested by level.",
 ["inputs", "configurations"], "all documents over the block vocabulary up to the stated size, times depth settings and explicit overrides",
 "Tests check single documents; the derived values depend on order, nesting and position of blocks.",
 ["src/blogc/content-parser.c", "src/blogc/source-parser.c", "src/blogc/toctree.c"],
 [("header slug", "blogc_slugify"), ("tree rendering", "blogc_toctree_render"), ("metadata extraction", "blogc_content_parse")], None, ["FIRST_HEADER, DESCRIPTION, EXCERPT, TOCTREE variables"])
prop("B08", "No input can crash, hang or leak: every parser is total",
 "Whatever bytes they are given (source, template, markup, configuration, file list, date, git shell command, git hook input, HTTP request data), the parsers terminate with either a result or a reported error, never read or write outside their buffers, and release everything they allocated.",
 ["inputs"], "every byte/token string up to the stated length over each parser's significant alphabet",
 "Totality is a statement over all inputs; tests contain no systematic enumeration and do not run with memory checking on malformed data.",
 ["src/blogc/content-parser.c", "src/blogc/source-parser.c", "src/blogc/template-parser.c", "src/common/config-parser.c", "src/blogc/filelist-parser.c", "src/blogc/datetime-parser.c", "src/blogc-git-receiver/shell-command-parser.c", "src/blogc-git-receiver/pre-receive-parser.c", "src/blogc-runserver/httpd-utils.c"],
 [("hand written state machines indexing the input", "all *_parse functions")], None, ["process outcome under AddressSanitizer/UBSan", "allocation balance"])
prop("B09", "Listing: order, tag filter and pagination partition the posts correctly",
 "For every list of posts and every combination of sorting, reversing, tag filter, page and page size, the posts listed are exactly those selected by the filters, in the documented order, pages 1..last contain each selected post exactly once, and the page and date/file-name variables describe that listing. Mixed dated and undated posts and undated posts under sorting are rejected.",
 ["inputs", "configurations"], "all post lists up to the stated length over a date/tag alphabet, times all filter settings in range",
 "Tests use fixed lists of a few files; off-by-one and ordering errors depend on the relation between list length, page size, page number and equal dates.",
 ["src/blogc/loader.c", "src/common/sort.c"],
 [("filter and pagination loop", "blogc_source_parse_from_files"), ("stable sort", "bc_slist_sort")], None, ["listed sources", "CURRENT_PAGE ... FILENAME_LAST variables"])
prop("B10", "Dates: exactly the documented formats are accepted and formatted truthfully",
 "A date is accepted if and only if it has the form yyyy-mm-dd [hh[:mm[:ss]]] with every field in range, and formatting it yields the same calendar fields that were written, with omitted fields zero and the correct weekday and day of year. Anything else is reported as an error naming the problem.",
 ["inputs"], "every date field value in range and out of range, every prefix, and every single-character deviation",
 "Tests check about one value per error message; correctness is per field value and per position.",
 ["src/blogc/datetime-parser.c"],
 [("date state machine", "blogc_convert_datetime")], None, ["formatted date or error"])
prop("B11", "INI configuration files: every documented file parses to exactly its contents",
 "For every configuration file made of sections, key=value pairs, list items, comments, blank lines and quoted or escaped values, parsing yields exactly those sections, keys, values and list items in order, with later duplicates of a key winning; malformed files are rejected with an error. The result does not depend on line-ending style or on whether the final line is terminated.",
 ["inputs"], "all files over the line vocabulary up to the stated number of lines, times line-ending styles and termination",
 "Tests parse a few fixed files; the parser's end-of-input and quoting states give a product of line kinds, orders and endings.",
 ["src/common/config-parser.c"],
 [("ini state machine", "bc_config_parse")], None, ["config accessors"])
prop("B12", "Input files are read completely and accepted only if valid UTF-8",
 "A file (or standard input) is delivered to the parsers byte for byte, apart from a leading UTF-8 byte order mark, whatever its size and however the operating system splits the reads, and a template, source or configuration file is accepted if and only if it is well-formed UTF-8 as defined by Unicode. A read error is reported and never treated as end of file.",
 ["inputs", "fault_sequences"], "every byte sequence up to 4 bytes over all UTF-8 class boundaries, every split position, sizes around the buffer size, every read failing or short",
 "Tests use one or two fixed strings; multi-byte sequences crossing a read boundary and failing reads are not exercised.",
 ["src/common/file.c", "src/common/utf8.c", "src/common/stdin.c"],
 [("UTF-8 automaton", "bc_utf8_validate"), ("chunked reader", "bc_file_get_contents")], None, ["file contents or error"])
prop("B13", "blogc exits successfully only if the requested output was fully produced",
 "If blogc exits with status 0, the output (file or standard output) contains exactly the rendered result and all options were valid; any bad option, unreadable or invalid input, or failed write or close makes it exit non-zero with a diagnostic. The output depends only on the inputs and options: where the option to read the file list from standard input or the order of options is changed, the result is the same.",
 ["fault_sequences", "configurations"], "every option combination of the stated vocabulary, and every single failure of every file-related call of the run",
 "No test injects a failing open, read, write or close into the program, and option interactions are tested by a few shell commands.",
 ["src/blogc/main.c", "src/common/file.c", "src/common/stdin.c", "src/blogc/filelist-parser.c"],
 [("option parsing and cleanup ladder", "main"), ("output writing", "main"), ("file list", "blogc_filelist_parse")], None, ["exit status", "output file", "stderr"])
prop("B14", "Parser error messages point at the offending line and position",
 "When a parser rejects a file, the reported line is the one containing the offending character, the reported position is its column, and the quoted text is that line, for every line-ending style and wherever in the file the error is.",
 ["inputs"], "all line layouts up to the stated number of lines, lengths and line-ending styles, and every error offset",
 "Tests check a handful of offsets in short texts with one line-ending style each.",
 ["src/common/error.c"],
 [("line/column computation", "bc_error_parser")], None, ["error message"])
prop("B15", "Core containers behave like their abstract types over every history",
 "Over every sequence of operations, the string buffer equals the concatenation of what was appended, the list equals the sequence built (and sorting it is a stable permutation), and the key-value map returns the last value stored under exactly that key, lists every key once, and never confuses keys that are prefixes of one another. Splitting, joining, stripping, replacing and quoting strings obey their algebraic laws.",
 ["histories", "inputs"], "all operation sequences up to the stated depth over small key/value alphabets; all strings up to the stated length",
 "Tests run one fixed sequence per function; containers are history dependent.",
 ["src/common/utils.c", "src/common/sort.c"],
 [("trie insert/lookup/foreach", "bc_trie_*"), ("chunked string growth", "bc_string_*"), ("list operations", "bc_slist_*"), ("shell quoting", "bc_shell_quote")],
 [("trie nodes", "children and values per key byte", "src/common/utils.c")], ["container contents"])
prop("B16", "The list of source files read from standard input is taken exactly",
 "With -i every line of the standard input that is neither empty nor a comment (first non-blank character '#') names one source file: the line without surrounding whitespace, in order, whatever the line endings, the length of the lines, and whether the last line is terminated. No line is lost, joined with another, or changed.",
 ["inputs"], "all lists over the significant bytes and line vocabulary up to the stated length",
 "Tests parse three short lists; comments, blanks and unterminated last lines combine in ways they do not sample.",
 ["src/blogc/filelist-parser.c"], [("list reader", "blogc_filelist_parse")], None, ["list of sources"])
prop("B17", "Variables that blogc provides by itself tell the truth about the build",
 "Whatever a template does with BLOGC_VERSION, BLOGC_RUSAGE_CPU_TIME, BLOGC_RUSAGE_MEMORY, BLOGC_SYSINFO_HOSTNAME, BLOGC_SYSINFO_USERNAME, BLOGC_SYSINFO_DATETIME and BLOGC_SYSINFO_INSIDE_DOCKER - print, truncate, test, compare or iterate over them, in any order - it sees exactly what the system reports: the program's version, the CPU time and memory used in the largest unit that fits with three decimals, the host's name, LOGNAME, the date and time in GMT, and 1 inside of a docker container. What the system cannot tell is undefined; a value is fixed by its first use and the same in every later one; and a variable that the user defines globally or in the source is never replaced by the provided one.",
 ["inputs", "histories", "environments"], "all sequences of uses up to the stated length, under all definitions by the user and all answers of the system within the stated bounds",
 "Tests call each function once or twice with a mocked system; none of them uses two of these variables in one template or together with definitions of the user.",
 ["src/blogc/funcvars.c", "src/blogc/rusage.c", "src/blogc/sysinfo.c", "src/blogc/renderer.c"],
 [("evaluation on first use", "blogc_funcvars_eval"), ("measurement and units", "blogc_rusage_inject"), ("system information", "blogc_sysinfo_inject_hostname"), ("lookup", "blogc_format_variable")], None, ["rendered output"])

# ---------------------------------------------------------------- blogc-make
prop("M01", "Incremental builds always converge to the same site as a clean build",
 "After any history of edits to sources, templates, settings and copied files (and deletions of outputs), a successful blogc-make run leaves every expected output with exactly the content a build from scratch would give, provided edits advance modification times. A run with nothing changed rewrites nothing.",
 ["histories"], "every sequence of edit/delete/build steps up to the stated depth over a small site",
 "Tests check one build from scratch; staleness only shows over sequences of edits and builds, and depends on which dependency changed between which builds.",
 ["src/blogc-make/rules.c", "src/blogc-make/ctx.c", "src/blogc-make/exec.c", "src/blogc-make/exec-native.c"],
 [("rebuild decision by modification time", "bm_rule_need_rebuild"), ("per-rule dependency lists", "rules.c")],
 [("modification times", "cached stat of each dependency and output", "src/blogc-make/ctx.c")], ["output tree", "exit status"])
prop("M02", "Every configured page, post, tag page, feed and copy is built in its place",
 "For every valid combination of settings (prefixes, extensions, order, page sizes) and contents (posts, pages, tags, files to copy), a build produces exactly the set of output paths that blogcfile(5) describes, each rendered from the right sources with the documented helper variables, ordering, pagination and tag filter, and copied files are identical to their sources.",
 ["configurations"], "all combinations of the settings vocabulary with small contents",
 "Tests run a few fixed blogcfiles; output naming and content selection depend on combinations of prefixes, extensions and page sizes.",
 ["src/blogc-make/rules.c", "src/blogc-make/utils.c", "src/blogc-make/settings.c", "src/blogc-make/atom.c", "src/blogc-make/exec.c"],
 [("output name generation", "bm_generate_filename, bm_generate_filename2"), ("variables per rule", "rules.c"), ("defaults", "bm_settings_parse")], None, ["output tree"])
prop("M03", "Clean removes exactly what builds create and nothing else",
 "After any history of builds and edits, the clean rule removes all the files that the current configuration builds and the directories left empty inside the output directory, and never touches sources, templates, settings, or files in the output directory that it did not build.",
 ["histories", "configurations"], "all subsets of foreign files and directories placed next to outputs, times settings, times build histories",
 "Tests run clean once on an untouched tree.",
 ["src/blogc-make/rules.c", "src/blogc-make/exec-native.c"],
 [("output enumeration", "clean_exec"), ("empty directory removal", "bm_exec_native_rm")], None, ["file system tree before and after"])
prop("M04", "A failing step makes the build fail; nothing broken is taken for up to date",
 "If any step of a build fails (a child command failing or not starting, a read, write, directory or rename error), blogc-make exits non-zero with a diagnostic, and once the cause is gone a further run repairs the site to what a clean build gives. Copied files are byte-exact copies whatever the sizes and however reads and writes are split.",
 ["fault_sequences", "crash_points"], "every single fault at every file-system or process call of a build, followed by a fault-free build",
 "No test injects failures; correctness of error paths depends on which call fails.",
 ["src/blogc-make/exec.c", "src/blogc-make/exec-native.c", "src/blogc-make/main.c", "src/blogc-make/rules.c"],
 [("child status propagation", "bm_exec_command, bm_exec_blogc"), ("copy loop", "bm_exec_native_cp")], None, ["exit status", "output tree after recovery"])
prop("M05", "Running a child command captures its output completely and never deadlocks",
 "For every way a child process interleaves reading its standard input and writing its standard output and standard error, and for every amount of data on each, running it returns its true exit status together with everything it wrote. It never blocks forever while the child is able to make progress.",
 ["schedules", "inputs"], "all child behaviours up to the stated number of read/write/close steps with sizes below and above the pipe capacity",
 "Tests run short commands whose output always fits the pipe.",
 ["src/blogc-make/exec.c"],
 [("pipe plumbing", "bm_exec_command")], None, ["returned status and output", "termination"])
prop("M06", "Watch mode eventually rebuilds every change, even after errors; stop is safe",
 "While watching, for every interleaving of edits with the watcher's polling, once edits stop the site converges to what a clean build of the final sources gives, also after the configuration was temporarily broken, missing or changed. An interrupt at any point ends the process with the documented status without leaving half-applied state behind. A server started beside it gets the settings it was started with and never holds up a build.",
 ["schedules", "histories"], "all interleavings of up to the stated number of edits with the polling loop's observation points",
 "Watch mode has no test; its behaviour depends on when a change lands relative to the poll.",
 ["src/blogc-make/reloader.c", "src/blogc-make/ctx.c", "src/blogc-make/httpd.c", "src/blogc-make/rules.c"],
 [("poll loop", "bm_reloader_run"), ("context reload", "bm_ctx_reload"), ("stop flag and lock", "bm_reloader_stop")],
 [("context", "parsed configuration and cached modification times", "src/blogc-make/ctx.c")], ["output tree", "process status"])
prop("M07", "Values reach blogc unaltered: no configuration text is interpreted by the shell",
 "Whatever characters appear in the settings, global variables, tags, posts, pages and paths of a blogcfile, each child command that blogc-make runs receives them as single, unaltered arguments, so no configuration text is ever executed or split by the shell.",
 ["inputs", "configurations"], "all short strings over the shell-significant alphabet at every place of the configuration",
 "Tests build command lines for plain values and compare the quoted strings textually, not what a shell does with them.",
 ["src/blogc-make/exec.c", "src/common/utils.c"],
 [("command line construction", "bm_exec_build_blogc_cmd"), ("quoting", "bc_shell_quote")], None, ["argument vector seen by the child"])
prop("M08", "The command line selects exactly the rules, the site and the mode it names",
 "For every command line, blogc-make runs exactly the rules it names, in their order (all of them if it names none), on the site of the given settings file (else ./blogcfile), in development mode exactly if asked to, wherever it is called from and whether it is its own program or part of blogc. A rule that fails stops the rules after it; an unknown rule, a wrong option, a missing value, or settings that are missing, invalid or not to be used outside of make give a non-zero exit status and a diagnostic. Help and version are shown without building anything.",
 ["inputs", "configurations"], "all command lines up to the stated length over rules, rule arguments, unknown rules and options, times the ways to call the program and to name the settings file",
 "Tests run single rules from the directory of the site.",
 ["src/blogc-make/main.c", "src/blogc-make/rules.c", "src/blogc-make/ctx.c", "src/blogc/main.c"],
 [("option parsing", "main"), ("rule dispatch and arguments", "bm_rule_executor"), ("path of the site", "bm_ctx_new")], None, ["output tree", "exit status", "standard output and errors"])
prop("M09", "A settings file is accepted exactly if complete and valid, and nothing is lost",
 "blogc-make accepts a well-formed blogcfile exactly if the five required variables have values and every variable has a valid name (an uppercase letter, then uppercase letters, digits and underscores); otherwise it gives an error and no settings. From an accepted file it takes every variable with its exact value, every documented setting with the value given or else its documented default, and the posts, pages, tags and files to copy exactly as listed and in their order; the order and number of the sections do not matter, and older names ([environment], [copy_files]) stand in only where the current ones are absent.",
 ["inputs", "configurations"], "all files within the stated bounds over variables, names, settings, values and lists",
 "Tests parse a handful of files.",
 ["src/blogc-make/settings.c", "src/common/config-parser.c"],
 [("required variables and names", "bm_settings_parse"), ("defaults", "default_settings"), ("lists", "list_sections")], None, ["bm_settings_t", "error"])
# ---------------------------------------------------------------- blogc-runserver
prop("R01", "The web server never serves anything outside its document root",
 "For every request target, however encoded, and every layout of files, directories and symbolic links around the document root, a response never contains the content of a file whose resolved location is outside the document root.",
 ["inputs", "configurations"], "all request targets over the path-token alphabet up to the stated number of tokens, on a tree with siblings sharing the root's name prefix and links leading out",
 "Tests issue a few well-formed requests; containment is universally quantified over targets and layouts.",
 ["src/blogc-runserver/httpd.c", "src/blogc-runserver/httpd-utils.c"],
 [("target decoding", "br_urldecode"), ("path resolution and prefix check", "handle_request")], None, ["response bytes on the socket"])
prop("R02", "Every request gets one complete, well-formed and correct response",
 "For every request line the server sends exactly one response with the status the situation calls for (200 with the exact file bytes, right length and type; a redirect to the same path plus a slash for directories; 400, 403, 404, 405 or 500 otherwise), with well-formed headers that no request text can extend, and then closes the connection. It releases everything the request used and stays up afterwards.",
 ["inputs", "fault_sequences"], "all request lines over the token alphabet up to the stated length, on a tree of files, directories, index files and unreadable entries; every short read/write of the exchange",
 "Tests check helper functions and few requests; status, headers and body depend on combinations of method, target and file kind.",
 ["src/blogc-runserver/httpd.c", "src/blogc-runserver/mime.c", "src/blogc-runserver/httpd-utils.c"],
 [("request handler", "handle_request"), ("type by extension", "br_mime_guess_content_type"), ("index guess", "br_mime_guess_index")], None, ["response bytes on the socket"])
prop("R03", "Concurrent connections are each served exactly once with bounded threads",
 "Under every interleaving of accepting, serving and finishing connections, every accepted connection is answered exactly once with its own response and closed, no connection is mixed up with another, at most the configured number of connections are served at the same time, and, as long as clients eventually send their request or disconnect, the server neither deadlocks nor stops accepting.",
 ["schedules"], "all thread schedules up to the stated preemption bound for up to the stated number of connections and threads",
 "Tests never run two connections at once; thread slot reuse depends on the schedule.",
 ["src/blogc-runserver/httpd.c"],
 [("thread slots, join before reuse", "br_httpd_run"), ("per-connection argument", "br_httpd_run")],
 [("slot", "thread id and initialised flag per slot", "src/blogc-runserver/httpd.c")], ["socket calls", "responses"])
prop("R04", "MIME type, extension and URL decoding are exact on all strings",
 "For every string, URL decoding maps exactly the valid %XX sequences to their byte and + to a space and keeps everything else, malformed sequences included, as it is. The extension of a path is the part after the last dot of its last component (a leading dot of the path does not start one), and the content type is the one registered for that extension, else a default.",
 ["inputs"], "all strings over the significant alphabet up to the stated length, all 256 bytes and all registered extensions",
 "Tests check a couple of strings each.",
 ["src/blogc-runserver/httpd-utils.c", "src/blogc-runserver/mime.c"],
 [("decoder", "br_urldecode"), ("extension", "br_get_extension"), ("type table", "br_mime_guess_content_type")], None, ["returned strings"])
prop("R05", "The web server listens exactly where it was asked to, or says why it does not",
 "For every command line and environment, blogc-runserver serves exactly the given document root at exactly the requested (else the default) address and port with exactly the requested (else the default) bound on threads, or exits non-zero with a diagnostic without listening at all; help and version are shown without touching the network. When a host has several addresses the first that can be bound is used, and what is printed is where it listens.",
 ["inputs", "configurations", "fault_sequences"], "all command lines up to the stated length over the vocabulary of options and values, all small address lists with every way for each address to fail",
 "Tests start the server with one command line; options, their values, the environment and failing addresses combine.",
 ["src/blogc-runserver/main.c", "src/blogc-runserver/httpd.c"],
 [("option parsing", "main"), ("address selection", "br_httpd_run")], None, ["socket calls", "exit status", "standard output and errors"])
# ---------------------------------------------------------------- blogc-git-receiver
prop("G01", "The login shell runs nothing but git on repositories under its base directory",
 "For every command string a client sends, the login shell either refuses with an error or runs exactly one permitted git service on exactly one repository located under its own repository directory; no client text is interpreted by a shell, escapes that directory, or reaches any other program.",
 ["inputs"], "all command strings over the token/byte alphabet up to the stated length",
 "Tests parse a few fixed commands; a security gate is a statement about all inputs.",
 ["src/blogc-git-receiver/shell.c", "src/blogc-git-receiver/shell-command-parser.c"],
 [("command parser", "bgr_shell_command_parse"), ("dispatch", "bgr_shell")], None, ["programs executed with their arguments", "file system"])
prop("G02", "Pushing to a new or existing repository always finds working hooks, idempotently",
 "After the login shell accepted a push to any repository name, the repository exists as a bare repository with both deployment hooks pointing to the tool, whatever state it was in before (absent, fresh, hooks missing, stale or foreign), and repeating the command changes nothing more. If preparation fails at any step, the push is refused with an error instead of being accepted without hooks.",
 ["histories", "fault_sequences"], "all prior repository states of the stated vocabulary, and every single failing step",
 "Tests run one fresh setup.",
 ["src/blogc-git-receiver/shell.c"],
 [("repository creation and hook links", "bgr_shell")], None, ["repository directory", "exit status"])
prop("G03", "Only pushes to the deployment branch deploy, and they deploy what was pushed",
 "For every set of ref updates in a push, the site is rebuilt exactly when the deployment branch (master, else main) is updated to a commit, and then from exactly the pushed commit; updates of other branches and tags, in any order and number, leave the live site untouched, and running the hook by hand rebuilds the last deployed commit.",
 ["inputs", "histories"], "all sequences of ref-update lines up to the stated length over branches, tags, creations and deletions",
 "Tests push a single branch; selection depends on the combination and order of updates.",
 ["src/blogc-git-receiver/pre-receive.c", "src/blogc-git-receiver/pre-receive-parser.c"],
 [("ref line parser", "bgr_pre_receive_parse"), ("branch selection", "bgr_pre_receive_hook")], None, ["deployed tree", "exit status"])
prop("G04", "A failed or interrupted deployment never takes down or corrupts the live site",
 "If any step of a deployment fails, the push is rejected and the live site link still leads to the complete previous build; if all steps succeed it leads to the complete new build. Temporary files are removed, builds of the live site are never deleted, and nothing outside the build directories is deleted.",
 ["fault_sequences", "crash_points", "histories"], "every single failing call and every kill point of a deployment, over deployment histories up to the stated depth",
 "No test injects a failure or a crash in a deployment.",
 ["src/blogc-git-receiver/pre-receive.c"],
 [("build directory naming and symlink switch", "bgr_pre_receive_hook"), ("recursive removal", "rmdir_recursive")],
 [("live link", "symbolic link to the current build", "file system")], ["live site tree", "exit status", "file system outside"])
prop("G05", "Mirroring pushes to the configured mirror only and never blocks the push",
 "After a push the repository is mirrored to the mirror remote of the repository if one is configured, else to the mirror given for exactly this repository in the configuration file, else nowhere; a mirroring failure is only a warning. The per-repository settings used are always those of the repository being pushed, wherever it lies under the base directory.",
 ["configurations", "fault_sequences"], "all combinations of remote/config-file/absent settings over several repositories, with each child command failing or not",
 "Tests cover a couple of settings with stub commands.",
 ["src/blogc-git-receiver/post-receive.c", "src/blogc-git-receiver/settings.c"],
 [("mirror selection", "bgr_post_receive_hook"), ("section lookup", "bgr_settings_get_section")], None, ["git commands executed", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
