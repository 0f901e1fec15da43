SETUP = "for c in harness/*/Cargo.toml; do (cd $(dirname $c) && cargo build --release --offline) || exit 1; done"
HOOKS = None
NOTES = ("Every check builds the harness crates against /repo's working tree itself; setup_cmd only warms the build. "
         "Known findings and repaired defects are listed in known-findings.jsonl.")

PARSER = ["crates/parsa/src/grammar.rs", "crates/parsa/src/automaton.rs", "crates/parsa/src/backtracking.rs",
          "crates/parsa/src/lib.rs", "crates/parsa_python/src/lib.rs", "crates/parsa_python/src/tokenizer.rs",
          "crates/parsa_python_cst/src/lib.rs"]

VFS = [f"crates/vfs/src/{n}.rs" for n in ("vfs", "tree", "workspaces", "local_fs", "lib", "path", "normalized_path")]

PROPS = [
 dict(id="C01", title="Parsing any text is total and loses nothing",
  statement="For every text, valid Python or not, the parser returns a syntax tree without crashing or running on, and "
            "the tokens of that tree with the gaps between them spell the text exactly: tokens appear in source order, do "
            "not overlap, lie inside the text at character boundaries, and the gaps contain nothing but whitespace, line "
            "continuations, comments and a byte order mark. Text that no rule accepts is kept as error nodes or error "
            "tokens, never dropped or duplicated.",
  quantifier=dict(over=["inputs"], text="all texts built from the alphabets of the listed spaces up to the bounds in the evidence"),
  why_tests_cant="The existing tests parse a few hundred hand-written snippets; the guarantee is about arbitrary text, "
                 "including every half-typed program an editor sends.",
  anchors=dict(files=PARSER, mechanism=[
     dict(name="PEG/LL parser with backtracking and error recovery", where="crates/parsa/src/grammar.rs"),
     dict(name="tokenizer incl. indentation and f-string modes", where="crates/parsa_python/src/tokenizer.rs")],
     observe_at=["Tree::parse, node start/end/type/code"])),
 dict(id="C02", title="Every way of walking a syntax tree agrees",
  statement="In every parsed tree each node's range is the hull of its children, children are ordered and follow each "
            "other without overlap, and parent, child, sibling, leaf-to-leaf, position and index navigation describe one "
            "and the same tree. Looking a leaf up by an offset finds the "
            "leaf that covers the offset, and searching a subtree for node types finds exactly the nodes of these types in "
            "source order, with or without those nested in a found one.",
  quantifier=dict(over=["inputs"], text="all trees of the enumerated texts, all nodes and all offsets in them"),
  why_tests_cant="Tests look at single nodes of single trees; a wrong link only shows for particular combinations of "
                 "backtracking, omitted nodes and error recovery.",
  anchors=dict(files=PARSER, mechanism=[
     dict(name="flat node array with next_node_offset links", where="crates/parsa/src/lib.rs")],
     observe_at=["PyNode and Node navigation methods"])),
 dict(id="C03", title="A program is flagged as a syntax error exactly when it is not Python",
  statement="Every program that CPython 3.12 accepts parses to a tree without error nodes, and every program it rejects "
            "gets at least one. Outside the guarantee are only: what CPython checks after its grammar (escapes, assignment "
            "targets checked by the compiler, encoding), indentation that mixes tabs with spaces, a backslash right before "
            "the end of the file, and four tolerated shapes of match statements (a bare star as subject or pattern, a "
            "numeric sum that is not complex, a plain name as mapping key).",
  quantifier=dict(over=["programs"], text="all programs of the enumerated spaces (grammar templates, token sequences, line layouts, f-string bodies)"),
  why_tests_cant="The grammar has about 160 rules whose ordered choices interact; tests sample a few combinations.",
  anchors=dict(files=PARSER, mechanism=[
     dict(name="Python grammar", where="crates/parsa_python/src/lib.rs"),
     dict(name="tokenizer", where="crates/parsa_python/src/tokenizer.rs")],
     observe_at=["error nodes and error leaves of the tree"])),
 dict(id="C04", title="The typed syntax tree means what Python means",
  statement="For every program that CPython 3.12 accepts, unpacking the tree through the typed API yields the structure "
            "that Python assigns to the program: the same statements in the same blocks, the same operators with the same "
            "precedence and grouping, the same parameters, arguments, defaults, decorators, targets, patterns, "
            "comprehension clauses and f-string parts, in the same order.",
  quantifier=dict(over=["programs"], text="all accepted programs of the enumerated spaces"),
  why_tests_cant="Tests pin the outcome for a handful of expressions; every consumer in the type checker relies on it for all programs.",
  anchors=dict(files=PARSER, mechanism=[
     dict(name="typed node wrappers (unpack, iter_*, expect_*)", where="crates/parsa_python_cst/src/lib.rs"),
     dict(name="Python grammar", where="crates/parsa_python/src/lib.rs")],
     observe_at=["public methods of parsa_python_cst node types"])),
 dict(id="C05", title="An open buffer overrides the disk until it is closed",
  statement="Whatever happens on disk, whichever file system events arrive (late, repeated, merged, for the file or for "
            "directories around it), and whatever else is opened, edited, closed or analysed: each open file is found "
            "under its path, keeps its file index from opening to closing, and has the text that was stored last. Exactly "
            "the open files count as in-memory files. Closing a file that is not open is refused, and closing an open one "
            "works.",
  quantifier=dict(over=["histories"], text="all interleavings of open, edit, close, disk writes, deletions, directory creation, removal and renames, event delivery and analysis up to the depth in the evidence"),
  why_tests_cant="Editor actions, disk changes and event delivery interleave in ways that a test samples a few of; the broken cases need four or more steps.",
  anchors=dict(files=VFS, mechanism=[dict(name="in_memory_files overlay", where="crates/vfs/src/vfs.rs"),
     dict(name="re-adding open files after a directory was replaced", where="crates/vfs/src/vfs.rs invalidate_path")],
     observe_at=["Vfs::in_memory_file, in_memory_file_ids, search_path, file, file_path"])),
 dict(id="C06", title="After all events, the file tree equals the disk plus open buffers",
  statement="As soon as the file system events of all changes have been handled, looking up any path gives a file exactly "
            "when the disk or an open buffer has a file there, loading it gives the text of the buffer if it is open and "
            "of the disk otherwise, directories are known exactly when they exist (on disk or around an open buffer), and "
            "each path has one file index of its own. Closing a buffer brings back the text of the disk, or removes the "
            "file if there is none.",
  quantifier=dict(over=["histories"], text="all interleavings of editor, disk, event and analysis operations up to the depth in the evidence"),
  why_tests_cant="Convergence has to hold from every intermediate state of the lazily read tree, not from the few states tests set up.",
  anchors=dict(files=VFS, mechanism=[dict(name="lazy directory tree", where="crates/vfs/src/tree.rs"),
     dict(name="event handling", where="crates/vfs/src/vfs.rs invalidate_path"),
     dict(name="reading directory entries", where="crates/vfs/src/local_fs.rs")],
     observe_at=["Vfs::search_path, ensure_file_for_file_entry, file"])),
 dict(id="C07", title="No analysis result survives a change of anything it depended on",
  statement="As soon as the file system events of all changes have been handled, every analysis result that was not "
            "invalidated equals what a fresh analysis would see: the text of the file and of everything it imports, "
            "directly or through other files, which file each import resolves to (packages before stubs before modules, "
            "namespace packages last), and which looked-up names do not exist. Files loaded as part of the database core "
            "invalidate everything when they change.",
  quantifier=dict(over=["histories"], text="all interleavings of editor, disk, event and analysis operations up to the depth in the evidence, over import graphs with cycles, stubs, packages, nested directories and missing modules"),
  why_tests_cant="A lost dependency only shows in the one order of load, change and event that loses it.",
  anchors=dict(files=VFS, mechanism=[dict(name="Invalidations of file and missing entries", where="crates/vfs/src/tree.rs"),
     dict(name="transitive invalidation", where="crates/vfs/src/vfs.rs invalidate_files")],
     observe_at=["VfsFile::invalidate_references_to, Vfs::file, InvalidationResult"])),
 dict(id="C08", title="Each open file that is invalidated is reported, and only open files are",
  statement="Whenever an operation drops the analysis of an open file (through a change of the file, of anything it "
            "depends on, or of the whole database), the handler is told about this file during the operation, and storing "
            "a buffer always reports that buffer. No file that is not open is ever reported.",
  quantifier=dict(over=["histories"], text="every operation of all histories up to the depth in the evidence"),
  why_tests_cant="Missing notifications show as stale diagnostics in the editor after particular sequences only.",
  anchors=dict(files=VFS, mechanism=[dict(name="on_invalidated_in_memory_file", where="crates/vfs/src/vfs.rs")],
     observe_at=["VfsHandler::on_invalidated_in_memory_file"])),
 dict(id="C09", title="Recovery after a crash loses no open file and no guarantee",
  statement="At any point at which all events are handled the file system state can be torn down and rebuilt through panic "
            "recovery. All open files are reported, stay open with their text, keep their role for the whole database, and "
            "from then on everything promised about overlay, convergence, invalidation and reporting holds as before, "
            "whatever follows.",
  quantifier=dict(over=["histories", "crash points"], text="a recovery at every point of all histories up to the depth in the evidence"),
  why_tests_cant="The crash can come at any point of any session.",
  anchors=dict(files=VFS, mechanism=[dict(name="into_panic_recovery, load_panic_recovery", where="crates/vfs/src/vfs.rs")],
     observe_at=["Vfs::into_panic_recovery, load_panic_recovery and everything observable afterwards"])),
 dict(id="C10", title="A file in nested workspaces is one file",
  statement="If a workspace lies inside of another one, in whatever order they were added, a file in the inner one has one "
            "entry, one index and one text, no matter through which workspace it is reached, belongs to the inner workspace "
            "(paths relative to a workspace are relative to that one), and a change through one "
            "route invalidates what was resolved through the other.",
  quantifier=dict(over=["histories"], text="all interleavings of editor, disk, event and analysis operations up to the depth in the evidence, for both orders"),
  why_tests_cant="Both routes have to agree after every sequence of loads, edits and events.",
  anchors=dict(files=VFS, mechanism=[dict(name="DirEntries::NestedWorkspace", where="crates/vfs/src/tree.rs"),
     dict(name="strip_short_path_in_workspace", where="crates/vfs/src/workspaces.rs")],
     observe_at=["Vfs::search_path, Directory::entries, Workspaces::load"])),
 dict(id="C11", title="String, bytes and number literals have the value that Python gives them",
  statement="For every string literal, concatenation of string literals (without f-strings), single bytes literal and integer that CPython accepts, the decoded value "
            "(escapes, raw and byte prefixes, triple quotes, line continuations, underscores and "
            "bases of integers, also integers too large for a machine word) is Python's value, and the reported content "
            "range of a string is exactly the text between its quotes. Cleaning a docstring removes the common indentation "
            "of its non-blank lines and the surrounding blank space, nothing else. Literals CPython rejects are decoded "
            "without a crash. Named \\N{...} escapes and lone surrogates are exempt.",
  quantifier=dict(over=["inputs"], text="all literals over the alphabets, prefixes, quotes and lengths in the evidence"),
  why_tests_cant="Escape decoding fails on particular neighbours of characters (an octal escape before a digit, a CR LF after a backslash); tests hold a few of them.",
  anchors=dict(files=["crates/parsa_python_cst/src/strings.rs", "crates/parsa_python_cst/src/lib.rs", "crates/utils/src/lib.rs"],
     mechanism=[dict(name="escape decoding", where="crates/parsa_python_cst/src/strings.rs PythonString, unpack_string_or_bytes_content"),
     dict(name="integers", where="crates/parsa_python_cst/src/lib.rs Int::parse"),
     dict(name="docstrings", where="crates/parsa_python_cst/src/strings.rs, crates/utils dedent")],
     observe_at=["PythonString, Strings, Bytes, Int public methods"])),
 dict(id="C12", title="Editor questions at any cursor position get the answer the syntax gives",
  statement="At every byte position of every text, also half-typed ones, asking for completion, goto, signature help, selection "
            "ranges, the names up to the position, folding ranges, inlay hint positions and the enclosing scope returns without "
            "a crash. The text a completion replaces is the identifier part that touches the cursor. Inside a comment there is no completion; "
            "strictly inside a string's text the completion says so. Selection ranges contain the position, are nested and grow strictly. "
            "For programs that CPython accepts: after a dot completion gives the expression before the dot; in import "
            "statements the modules and names before the cursor; new names of def, class and 'as' and positional parameter "
            "names get no "
            "suggestions other than for a new name; in the arguments of a call it gives the innermost call with the number of positional "
            "arguments and the keywords used elsewhere in it; goto on a name, attribute, imported name, global or nonlocal name, None, True, "
            "False or operator finds this name, its base expression, or the operator's operands; signature help gives the innermost "
            "call around the cursor (not in assignment targets) with the kinds of all arguments up to the cursor; each "
            "indented block folds from the end of its header line to the end of its last line (match statements aside).",
  quantifier=dict(over=["inputs"], text="all positions of all texts of the spaces in the evidence, including each program cut at each of its tokens"),
  why_tests_cant="The answer depends on the leaf before and after the cursor, on white space and on error recovery; tests pick single positions.",
  anchors=dict(files=["crates/parsa_python_cst/src/completion.rs", "crates/parsa_python_cst/src/signatures.rs",
     "crates/parsa_python_cst/src/ranges.rs"],
     mechanism=[dict(name="completion and goto nodes", where="crates/parsa_python_cst/src/completion.rs"),
     dict(name="signature help", where="crates/parsa_python_cst/src/signatures.rs"),
     dict(name="selection and folding ranges", where="crates/parsa_python_cst/src/ranges.rs")],
     observe_at=["Tree::completion_node, goto_node, signature_node, selection_ranges, folding_blocks"])),
 dict(id="C13", title="Ignore comments are found, and inserted edits do exactly what they say",
  statement="For every line and every region of tokens of every text, the ignore comment that applies is exactly the "
            "'# type: ignore' or '# zuban: ignore' (bare or with codes in brackets) on these lines: its kind, the text and position of its "
            "codes and the codes of further such comments; a bare one wins over codes. '# mypy: ' lines are found "
            "with their position, and the ignore comment in front of the first statement is found. For each valid program, inserting an "
            "offered ignore comment leaves the program unchanged for Python and makes the line ignore the new code (none is offered only "
            "where the line ends within a string or in a backslash, or is ignored already), inserting an import at the reported place adds it right behind "
            "the leading docstring and imports, and inserting a new name into a from-import (not a star import) adds just this name.",
  quantifier=dict(over=["inputs"], text="all lines and token regions of all texts of the spaces in the evidence"),
  why_tests_cant="Whether an insertion is harmless depends on comments, continuation lines, brackets and strings around it, in all their combinations.",
  anchors=dict(files=["crates/parsa_python_cst/src/lib.rs", "crates/parsa_python_cst/src/code_actions.rs", "crates/parsa_python_cst/src/ranges.rs"],
     mechanism=[dict(name="ignore comments", where="crates/parsa_python_cst/src/lib.rs type_ignore_comment_for, maybe_type_ignore"),
     dict(name="ignore insertion", where="crates/parsa_python_cst/src/code_actions.rs"),
     dict(name="import insertion", where="crates/parsa_python_cst/src/ranges.rs initial_imports_end_code_index, lib.rs insertion_point_for_new_name")],
     observe_at=["Tree::type_ignore_comment_for, insertion_point_for_type_ignore, has_type_ignore_at_start, mypy_inline_config_directives, initial_imports_end_code_index"])),
 dict(id="C14", title="Shared lists and mapped locks stay sound under concurrent use",
  statement="A list that only grows (InsertOnlyVec) can be pushed to and read (get, index, last, len, is_empty, Debug, clone) "
            "by several threads at once: every reference handed out is to a pushed element at its own place and stays valid "
            "and unchanged however many elements follow, each push gets an index of its own without gaps, whatever was there "
            "when a read began is seen by it, and an index outside of the list panics without harming later uses. For an "
            "exclusive owner (set, iter_mut, clear, clone, into_iter, as_vec_mut) it behaves as a plain list. References "
            "mapped out of a read or write lock keep the lock for as long as they live and release it afterwards.",
  quantifier=dict(over=["schedules"], text="all interleavings up to the preemption bounds in the evidence of all small programs of two to four threads; all operation sequences of one owner up to the depth in the evidence"),
  why_tests_cant="A buffer that moves while another thread reads it shows in one interleaving of a few instructions.",
  anchors=dict(files=["crates/utils/src/lib.rs"], mechanism=[dict(name="InsertOnlyVec", where="crates/utils/src/lib.rs InsertOnlyVec"),
     dict(name="mapped guards", where="crates/utils/src/lib.rs MappedReadGuard, MappedWriteGuard, OwnedMappedReadGuard")],
     observe_at=["public methods of InsertOnlyVec and the mapped guards"])),
 dict(id="C15", title="Files can be looked up and loaded from many threads at once",
  statement="Threads sharing one virtual file system may look up, index and load files (also conditionally, by index, as part of "
            "the database core, and outside of all workspaces), list and walk directories, register dependencies on files and "
            "on missing names, add workspaces and create sub files at the same time. In every interleaving no call panics or "
            "blocks forever, each path has one entry and one index of its own, a loaded file was made for its index from the "
            "text on disk, listings are complete, every registered dependency is invalidated by a later change, a file "
            "loaded by anyone as part of the database core invalidates everything when it changes, each workspace is added "
            "once and exactly one caller is told so, and sub files have indexes of their own.",
  quantifier=dict(over=["schedules"], text="all interleavings up to the preemption bounds in the evidence of all pairs (and triples) of these operations, followed by every change of something depended on"),
  why_tests_cant="Two threads that load the same file for the first time race in a window of a few instructions.",
  anchors=dict(files=VFS, mechanism=[dict(name="loading", where="crates/vfs/src/vfs.rs ensure_file_for_file_entry_with_conditional, add_uninitialized_file_state"),
     dict(name="index of an entry", where="crates/vfs/src/tree.rs FileEntry::with_set_file_index"),
     dict(name="directories read once", where="crates/vfs/src/tree.rs Directory::entries"),
     dict(name="workspaces", where="crates/vfs/src/workspaces.rs push_without_full_access")],
     observe_at=["Vfs public methods that take &self; later invalidations"])),
 dict(id="C16", title="Incremental analysis equals a fresh analysis of the same contents",
  statement="Whatever edits were made to the files of a project (changed, added, closed, removed; in buffers or on disk with the "
            "events for it; stubs, packages, star imports, __all__, import cycles, inheritance and inference over several "
            "files included), and whatever was asked in between (diagnostics of all, some or none of the files, a check of "
            "the project, inference, references and completions, a recovery after a crash), the diagnostics of every file "
            "are then the ones that a fresh project reports for the same contents: nothing stale, missing or reported twice.",
  quantifier=dict(over=["histories"], text="all edit histories up to the depth in the evidence over the listed worlds, with all kinds of queries in between"),
  why_tests_cant="What is invalid depends on everything that was analyzed before and in which order; tests replay a few histories.",
  anchors=dict(files=["crates/zuban_python/src/database.rs", "crates/zuban_python/src/imports.rs", "crates/zuban_python/src/file/python_file.rs",
                      "crates/zuban_python/src/file/diagnostics.rs", "crates/zuban_python/src/diagnostics.rs", "crates/vfs/src/vfs.rs"],
     mechanism=[dict(name="Points::invalidate_references_to, PythonFile::invalidate_references_to", where="crates/zuban_python/src/database.rs"),
                dict(name="python_import and its missing entries", where="crates/zuban_python/src/imports.rs")],
     observe_at=["Document::diagnostics after Project::store_in_memory_file, close_in_memory_file, invalidate_path"])),
 dict(id="C17", title="Document changes and positions follow the LSP, in every encoding",
  statement="For every text and every list of changes to it (ranges in UTF-8, UTF-16 or code points, several in one message, "
            "whole-document changes among them, over narrow and astral characters and all kinds of newlines) the text that the project then has "
            "is the one that the LSP prescribes (up to a newline at its end). A range that does not exist (line or "
            "column out of bounds, inside of a character, end before start) is refused, and a refused message changes "
            "nothing. The lines and columns that are reported are those of the reported byte, and each of the "
            "encodings leads back to it.",
  quantifier=dict(over=["inputs", "operation sequences"], text="all texts and change lists up to the bounds in the evidence"),
  why_tests_cant="The tests try a handful of changes on short ASCII texts.",
  anchors=dict(files=["crates/zuban_python/src/lines.rs", "crates/zuban_python/src/lsp_utils.rs", "crates/zuban_python/src/lib.rs"],
     mechanism=[dict(name="apply_document_changes", where="crates/zuban_python/src/lsp_utils.rs"),
                dict(name="NewlineIndices::line_column_to_byte, position_infos", where="crates/zuban_python/src/lines.rs")],
     observe_at=["Project::store_file_with_lsp_changes, code_of_in_memory_file, PositionInfos"])),
 dict(id="C18", title="Revealed types and reachability are true of every run",
  statement="For every function that the type checker accepts, every input of the declared parameter types and every run: "
            "a place that is reached is not reported as unreachable, and the value of an expression there belongs to the type "
            "that is revealed for it. This covers narrowing by conditions (isinstance, issubclass, callable, is, ==, in, len, truth, type(), hasattr, "
            "walrus, comparison chains, and, or, not), by match statements, assert, and the joins after if, while, for, "
            "try/except, with, return, break, continue and raise; types of operators, calls, subscripts, slices, attributes, "
            "comprehensions and unpacking over the builtin types, enums, named tuples and dataclasses; and the operations that are "
            "accepted do not fail with a TypeError, AttributeError or NameError, as far as typeshed says. It is stated for the "
            "first iteration of loops and outside of finally blocks that are entered by a jump.",
  quantifier=dict(over=["inputs", "executions"], text="all programs of the spaces in lib/soundspaces.py, all inputs of lib/sound.py, all sequences of free decisions up to the bound"),
  why_tests_cant="The tests compare the revealed types of single programs with what was written down for them, and nobody runs the programs.",
  anchors=dict(files=["crates/zuban_python/src/file/flow_analysis.rs", "crates/zuban_python/src/file/isinstance.rs", "crates/zuban_python/src/file/inference.rs",
                      "crates/zuban_python/src/type_/operations.rs", "crates/zuban_python/src/type_/tuple.rs", "crates/zuban_python/src/match_.rs"],
     mechanism=[dict(name="narrow_is_or_eq, split_and_intersect, merge_or, merge_and, process_loop", where="crates/zuban_python/src/file/flow_analysis.rs")],
     observe_at=["diagnostics of reveal_type and of unreachable statements"])),
 dict(id="C20", title="Every query is answered without a crash and with sane ranges",
  statement="For every text, finished or half-typed, and every position in it: goto (definition, declaration, type), inference, "
            "documentation, references, can-rename, rename, completion, signatures, selection ranges, semantic tokens, inlay hints, "
            "code actions, folding ranges and symbols return without a panic. The answers are well-formed: every range lies inside of "
            "its text, on character boundaries, with start <= end; semantic tokens are ordered and do not overlap; the ranges of "
            "references and of symbols carry the text of the name, without duplicates; the range of can-rename and of documentation "
            "touches the position; the edits of a rename do not overlap; the range a completion replaces contains the position; "
            "selection ranges are nested.",
  quantifier=dict(over=["inputs"], text="all texts of lib/queryspace.py (programs, all their prefixes, all single token deletions, all token sequences in frames) and every position of each"),
  why_tests_cant="The tests ask at hand-picked positions of complete programs; an editor asks at every position of every unfinished text.",
  anchors=dict(files=["crates/zuban_python/src/goto.rs", "crates/zuban_python/src/completion.rs", "crates/zuban_python/src/lines.rs",
                      "crates/zuban_python/src/semantic_tokens.rs", "crates/zuban_python/src/selection_ranges.rs", "crates/zuban_python/src/signatures.rs"],
     mechanism=[dict(name="Document::*", where="crates/zuban_python/src/lib.rs")],
     observe_at=["results of the public methods of Document"])),
 dict(id="C21", title="References and renaming follow Python's scopes and imports",
  statement="For every name of every program that the checker accepts without syntax errors: the references of the name are exactly the "
            "occurrences that Python resolves to the same variable (functions, lambdas, comprehensions, classes, global, nonlocal, del, "
            "walrus, except, match, imports, type parameters), the same from whichever of them is asked, and goto leads to one of them (from a self parameter, to its class). Renaming it edits exactly "
            "those, in all files that import it (aliases, re-exports, star imports, cycles, attributes of modules and classes, "
            "members that are assigned on self, modules and packages themselves), and the "
            "program does after the renaming what it did before. It is not stated for keyword arguments, overridden members, names "
            "inside of strings, class bodies that both read and bind a name, attributes with the name of a global or nonlocal statement in a class, reads before any binding and names of the standard library.",
  quantifier=dict(over=["inputs"], text="all programs of lib/scopes.py and all worlds of lib/renames.py, every occurrence of every name"),
  why_tests_cant="The tests list the references of single programs; a wrong rename silently changes what a program does.",
  anchors=dict(files=["crates/zuban_python/src/goto.rs", "crates/zuban_python/src/file/name_binder.rs", "crates/zuban_python/src/file/name_resolution.rs", "crates/zuban_python/src/select_files.rs"],
     mechanism=[dict(name="ReferencesGoal, GotoResolver, NameBinder", where="crates/zuban_python/src/goto.rs")],
     observe_at=["Document::references, Document::rename, Document::goto"])),
 dict(id="C19", title="Calls are accepted exactly if CPython binds their arguments",
  statement="For every parameter list (positional-only, normal, *args, keyword-only and **kwargs parameters, with and without defaults) and "
            "every call (positional arguments, keywords, unpacked tuples of known length, typed dicts, lists and dicts): the checker reports an error for "
            "the call exactly if CPython cannot bind it, or if a value arrives at a parameter of another type. This holds for functions, methods, static and class methods, "
            "constructors, __call__, type[...] objects, decorators with a ParamSpec, overloads, protocols, super() and lambdas alike, and for the synthesized "
            "constructors of dataclasses (defaults, field(), kw_only, KW_ONLY, InitVar, ClassVar, inheritance and overriding) and named tuples. A "
            "dataclass that CPython refuses to create is reported. An unpacked list or dict is "
            "accepted if the call works for one of its possible contents. Not stated for keywords next to an unpacked list and for names "
            "that two unpacked dicts give to **kwargs.",
  quantifier=dict(over=["inputs"], text="all parameter lists, calls, frames and classes of lib/calls.py"),
  why_tests_cant="The tests call a few dozen signatures; the matching of arguments depends on the combination of kinds, defaults and order.",
  anchors=dict(files=["crates/zuban_python/src/params.rs", "crates/zuban_python/src/arguments.rs", "crates/zuban_python/src/type_/dataclass.rs"],
     mechanism=[dict(name="InferrableParamIterator, calculate_dataclass_params", where="crates/zuban_python/src/params.rs")],
     observe_at=["diagnostics of the project"])),
 dict(id="C22", title="Attributes, super(), MROs and operators resolve as in CPython",
  statement="For every hierarchy of classes: the checker reports exactly those whose method resolution order CPython cannot build, and an inherited "
            "method and super() have the result type of the class that CPython finds. For every way to define an attribute (variable, method, "
            "property, class and static method, (data) descriptor, nested class, callable object, __getattr__) in a class, its base or its "
            "metaclass: reading and calling it on the instance or the class has the type of the value that CPython gives, and is an error exactly if "
            "CPython raises a TypeError or AttributeError. The same for binary operators with reflected methods and inheritance, ordering comparisons of unrelated "
            "classes, unary operators, and for iteration, unpacking, indexing, item assignment and deletion, containment, calls, with, len, next and reversed "
            "through special methods. Not stated for == and !=, attributes that both a class and its metaclass define, iteration by "
            "__getitem__ alone and instance variables that a subclass redefines.",
  quantifier=dict(over=["inputs"], text="all hierarchies, attribute definitions, operators and sets of special methods of lib/datamodel.py"),
  why_tests_cant="The tests contain single hierarchies; which definition wins depends on the combination of bases, kinds and methods.",
  anchors=dict(files=["crates/zuban_python/src/type_helpers/class.rs", "crates/zuban_python/src/file/type_computation/class.rs", "crates/zuban_python/src/type_helpers/instance.rs", "crates/zuban_python/src/type_/operations.rs", "crates/zuban_python/src/file/inference.rs"],
     mechanism=[dict(name="linearize_mro, ClassLookupOptions, binary operators", where="crates/zuban_python/src/type_helpers/class.rs")],
     observe_at=["diagnostics of the project, types shown by reveal_type"])),
 dict(id="C23", title="A type is accepted for another exactly if it is assignable",
  statement="For every pair of types S and T: a value of the declared type S is accepted where T is declared (return x in def f(x: S) -> T) exactly "
            "if S is assignable to T under Python's typing rules. That covers builtin, nominal and generic types with their variance, Any, None, "
            "object, Never, literals, enums (all members together are the enum), tuples of fixed and arbitrary length and with an unpacked part, class objects, NewType, named tuples, typed dicts "
            "(required, not required and read-only keys), unions, protocols (methods, variables, class variables, properties with and without setter, class and static "
            "methods, Final), generic and overloaded callables, and these nested in each other. A callable is accepted for another "
            "with the same types of parameters exactly if it takes each call that the other takes. Not stated for class objects against "
            "Callable types, type and type[Any] against protocols, Hashable, overloads against a union of their parameters, and callables with both positional-only "
            "parameters and **kwargs or where both have *args and **kwargs.",
  quantifier=dict(over=["inputs"], text="all pairs of the types of lib/assign.py, 44 000 quick and 529 000 thorough"),
  why_tests_cant="The tests assign a few hundred pairs; the relation is quadratic in the forms of types and its recursion nests them.",
  anchors=dict(files=["crates/zuban_python/src/type_/matching.rs", "crates/zuban_python/src/params.rs", "crates/zuban_python/src/type_helpers/class.rs", "crates/zuban_python/src/type_/typed_dict.rs"],
     mechanism=[dict(name="Type::matches, matches_simple_params, check_protocol_match", where="crates/zuban_python/src/type_/matching.rs")],
     observe_at=["diagnostics of the project"])),
]
T = dict(
 C01=("exhaustive enumeration of bounded texts on the real parser (explicit-state exploration of inputs)", "exploration",
      "Exhaustive within the listed alphabets, frames and lengths; says nothing about longer texts or other characters."),
 C02=("exhaustive enumeration of bounded texts, all nodes and offsets, on the real tree", "exploration",
      "Exhaustive within the listed spaces; the reference is recomputed from the raw node array."),
 C03=("exhaustive enumeration of bounded programs, each compared with CPython 3.12", "exploration",
      "Exhaustive within the listed spaces; trusts CPython 3.12.3's ast.parse as oracle."),
 C04=("exhaustive enumeration of bounded programs, each typed tree compared with CPython's ast", "exploration",
      "Exhaustive within the listed spaces; trusts CPython 3.12.3's ast and the printer in lib/astref.py."),
 C11=("exhaustive enumeration of bounded literals, each value compared with CPython's", "exploration",
      "Exhaustive within the listed spaces; trusts CPython 3.12.3's evaluation of literals."),
 C12=("exhaustive enumeration of bounded texts and of every cursor position in them", "exploration",
      "Exhaustive within the listed spaces; trusts CPython 3.12.3's ast and tokenize and the reading of them in lib/cursor.py."),
 C13=("exhaustive enumeration of bounded texts, all lines, regions and insertions of each", "exploration",
      "Exhaustive within the listed spaces; trusts CPython 3.12.3's ast and the plain reading in lib/edits.py."),
)
T["C16"] = ("explicit-state exploration of edit and query histories, each run on the real type checker and compared with a fresh "
            "project that has the final contents", "model_checking",
            "Exhaustive up to the depths over the worlds in lib/incremental.py; differential: both sides are the implementation.")
T["C17"] = ("exhaustive enumeration of bounded texts, ranges and change lists, each compared with a plain reading of the LSP",
            "exploration", "Exhaustive within the listed spaces; trusts the reading of the LSP in lib/lspedits.py.")
T["C18"] = ("exhaustive enumeration of bounded programs and of all of their executions under CPython, each reached place compared "
            "with the type checker's claim", "exploration",
            "Exhaustive within the listed spaces; CPython 3.12.3 executes the programs; types that lib/sound.py cannot read are counted and skipped.")
T["C20"] = ("exhaustive enumeration of bounded texts and of all positions and queries on the real checker", "exploration",
            "Exhaustive within the listed spaces; well-formedness is judged by harness/checker/src/shape.rs on the raw text.")
T["C21"] = ("exhaustive enumeration of bounded programs and of all their names, compared with CPython's symbol table and with runs of the "
            "renamed programs under CPython", "exploration",
            "Exhaustive within the listed spaces; trusts CPython 3.12.3's symtable and its execution of the programs.")
T["C19"] = ("exhaustive enumeration of bounded signatures and calls, each executed by CPython", "exploration",
            "Exhaustive within the listed spaces; trusts CPython 3.12.3's binding of arguments and its dataclasses module.")
T["C22"] = ("exhaustive enumeration of bounded class hierarchies, attribute definitions and operators, each executed by CPython", "exploration",
            "Exhaustive within the listed spaces; trusts CPython 3.12.3.")
T["C23"] = ("exhaustive enumeration of all pairs of bounded types, each compared with a second type checker; callables with the calls that CPython "
            "binds", "exploration", "Exhaustive within the listed types; trusts Mypy 2.4.1's subtyping and CPython 3.12.3's binding of arguments.")
for _i in (14, 15):
    T[f"C{_i}"] = (
        "stateless model checking: all interleavings up to a preemption bound of the real code under a controlled scheduler",
        "model_checking",
        "Exhaustive up to the preemption bounds for the listed programs; the code under test is compiled unchanged with a "
        "standard library whose locks, once-cells and atomics are scheduling points (harness/conc); sequentially consistent memory.")
for _i in range(5, 11):
    T[f"C{_i:02}"] = (
        "explicit-state model checking: breadth-first search over operation histories, each replayed on the real virtual "
        "file system over a scratch directory and compared with a reference model", "model_checking",
        "Exhaustive up to the depth and within the configurations in harness/vfsmc/src/configs.rs; every trace runs on the "
        "implementation, so model and code cannot drift apart.")
for p in PROPS:
    if p["id"] in T:
        p["technique"], p["level"], p["level_note"] = T[p["id"]]
