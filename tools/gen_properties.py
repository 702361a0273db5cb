"""Writes properties.jsonl. One place to edit the list of properties."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], state=state or [], hook_needed=None)))


T = 'The tests run a few hand-written streams and compare printed text; '

p('C01', 'Positional and ordering operators transform any stream exactly as documented',
  'For every finite input stream, gen, head, tail, reverse, sort, unique and window (with every flag and any count, '
  'including negative counts, 0 padding and counts beyond the stream length) emit exactly the documented tuples, in '
  'the documented order, with nothing lost, duplicated or invented. sort is stable and honours its key; unique '
  '(with or without -c) keeps the first occurrence; window splits the stream into exactly the documented groups, '
  'padded with None. The result does not depend on what follows or precedes the operator in the pipeline.',
  ['inputs', 'programs'],
  'Every input stream (length 0 upward, duplicates, mixed widths), every flag/count value, and compositions of these '
  'operators.',
  T + 'they do not cover empty streams, boundary counts relative to the length, ties in sort, or compositions.',
  ['marcel/op/gen.py', 'marcel/op/head.py', 'marcel/op/tail.py', 'marcel/op/reverse.py', 'marcel/op/sort.py',
   'marcel/op/unique.py', 'marcel/op/window.py', 'marcel/core.py'],
  [('receive/flush protocol of Op', 'marcel/core.py'), ('HeadKeepN, TailKeepN ring buffer', 'marcel/op/tail.py'),
   ('PredicateWindow, OverlapWindow, DisjointWindow', 'marcel/op/window.py')],
  ['items reaching the end of the pipeline'])

p('C02', 'Per-tuple operators (map, select, expand, squish, cast) obey their definitions',
  'For every input stream, map, select, expand, squish and cast produce, tuple by tuple and in input order, exactly '
  'what their documentation defines: map applies the function once per tuple, select keeps exactly the tuples for '
  'which the predicate is true, expand replaces the sequence (whole tuple or position N) '
  'by one output per element and leaves non-sequences alone, squish reduces each '
  'tuple to one value, and cast converts position by position and leaves None alone. pos() is the 0-based position '
  'of the tuple in the input of the operator using it.',
  ['inputs', 'programs'],
  'Every stream of tuples of any width, every position argument, every reduction/cast type list.',
  T + 'positions outside the tuple, nested sequences, empty sequences and mixed widths are not sampled.',
  ['marcel/op/map.py', 'marcel/op/select.py', 'marcel/op/expand.py', 'marcel/op/squish.py', 'marcel/op/cast.py',
   'marcel/core.py'],
  [('op receive methods', 'marcel/op/*.py'), ('position counting', 'marcel/core.py Op.pos')],
  ['items reaching the end of the pipeline'])

p('C03', 'red computes exact grouped and incremental reductions',
  'For every stream and every list of reduction functions, red without grouping emits exactly one tuple holding the '
  'left-to-right reduction of each position; with grouping positions it '
  'emits exactly one tuple per distinct group key with the reductions over that group only; and with --incremental '
  'it emits every input tuple followed by the reductions of its group over the inputs so far. The built-in reductions '
  '(+, *, min, max, &, ^, and, or, count, concat) compute what their names say.',
  ['inputs', 'programs'],
  'All streams (any width, any number of groups, interleaved groups), any mix of grouping positions and reductions.',
  T + 'only single small examples with one grouping layout are compared.',
  ['marcel/op/red.py', 'marcel/op/squish.py', 'marcel/reduction.py'],
  [('GroupingReducer / NonGroupingReducer', 'marcel/op/red.py'), ('reduction functions', 'marcel/reduction.py')],
  ['items reaching the end of the pipeline'])

p('C04', 'union, intersect, difference and filter obey bag (multiset) semantics',
  'For all streams of hashable tuples and all pipeline arguments, union emits every tuple of every input, intersect emits each tuple '
  'min-multiplicity times, difference emits each tuple (left minus right multiplicity) times, and filter emits '
  'exactly the input tuples whose (mapped) value occurs (--keep) or does not occur (--discard) in the pipeline '
  'argument, in input order, with --compare giving the value to look for.',
  ['inputs', 'programs'],
  'All pairs/triples of streams with duplicates, including empty ones, and any number of pipeline arguments.',
  T + 'multiplicities and empty operands are hardly sampled.',
  ['marcel/op/union.py', 'marcel/op/intersect.py', 'marcel/op/difference.py', 'marcel/op/filter.py'],
  [('count maps populated from pipeline arguments', 'marcel/op/intersect.py, difference.py'),
   ('flush routing of the pipeline arguments', 'marcel/op/union.py')],
  ['items reaching the end of the pipeline'])

p('C05', 'join emits exactly the matching pairs on the first value',
  'For every left stream and every pipeline argument, join emits, for each left tuple in order and each right tuple '
  'with an equal first value in order, the left tuple extended by the rest of the right tuple, exactly once per pair. '
  'With --keep, and only then, left tuples without a match are emitted unchanged. The right pipeline is '
  'evaluated once.',
  ['inputs', 'programs'],
  'All pairs of streams with repeated and missing keys, of any width.',
  T + 'many-to-many matches, wide tuples and empty sides are not covered.',
  ['marcel/op/join.py'],
  [('inner hash map loaded from the pipeline argument', 'marcel/op/join.py')],
  ['items reaching the end of the pipeline'])

p('C06', 'case routes each tuple to exactly one branch; args batches exactly',
  'For every stream, case sends each input tuple to the pipeline of the first predicate that is true for it, or to '
  'the default pipeline if there is one, or drops it, and emits what that pipeline produces for the tuple. args runs '
  'its pipeline once per batch of as many input values as the pipeline has parameters (a final partial batch is '
  'filled with None; --all passes all values in one list), with every value passed exactly once and in order.',
  ['inputs', 'programs'],
  'All streams, predicate lists, with or without default, branch pipelines, and parameter counts.',
  T + 'a handful of predicates; partial batches, stateful branch pipelines and nesting are not sampled.',
  ['marcel/op/case.py', 'marcel/op/args.py', 'marcel/pipeline.py'],
  [('branch dispatch', 'marcel/op/case.py'), ('argument batching and pipeline bindings', 'marcel/op/args.py')],
  ['items reaching the end of the pipeline'])

p('C07', 'Pipeline parameters are bound per execution and never disturb other variables',
  'Running a parameterised pipeline binds each parameter to the positional, keyword or (absent) None argument for '
  'that execution only, at any nesting depth and when pipelines call other pipelines with the same parameter names. '
  'When the execution ends, normally or by an error, every variable of the session, including those with the same '
  'names as parameters, has the value it had before, except for variables the pipeline assigned or stored.',
  ['programs', 'histories'],
  'All programs of nested parameterised pipelines over a shared pool of names, with shadowing, repeated calls '
  'and failing bodies.',
  'The tests call a few pipelines with fresh names and look at their output, never at the session afterwards.',
  ['marcel/pipeline.py', 'marcel/nestednamespace.py', 'marcel/op/runpipeline.py', 'marcel/argsparser.py'],
  [('scope stack push/pop', 'marcel/nestednamespace.py'), ('bindings', 'marcel/pipeline.py run_pipeline')],
  ['pipeline output', 'variables read after the command'])

p('C08', 'The Python API and the marcel language give the same results; notations agree',
  'A pipeline written in the marcel language and the same pipeline composed in Python with marcel.api produce the '
  'same tuples and errors, through gather, iteration, first and run; a pipeline composed in the API can be used any '
  'number of times without affecting other uses. Every way of writing a function (with or without lambda, with a bare '
  'expression, by a variable or parameter holding the function) gives the same result, and first stops at the first '
  'output.',
  ['programs', 'inputs'],
  'All pipelines over the stream operators with generated arguments, each rendered in both forms and notations.',
  'The API and language tests are separate lists of examples; no test compares them on the same program.',
  ['marcel/api.py', 'marcel/parser.py', 'marcel/function.py', 'marcel/function_args_parser.py', 'marcel/pipeline.py',
   'marcel/op/apiop.py'],
  [('op argument generation and shared ArgsParser', 'marcel/api.py _generate_op'),
   ('Expression to function translation', 'marcel/parser.py, marcel/function_args_parser.py'),
   ('PipelineOpList copying', 'marcel/pipeline.py')],
  ['gather output', 'language output'])

p('C09', 'Any command line is executed or cleanly rejected, never crashes the session',
  'For any text, parsing either yields an executable command or rejects the text with an error that the main loop '
  'reports; it never fails in another way, runs anything, or changes variables. After a rejected or failed '
  'command the session is exactly as usable as before: the following commands produce the results they would have '
  'produced without it.',
  ['inputs', 'histories'],
  'Arbitrary character sequences, token soups, and mutations (truncation, deletion, duplication, splicing) of '
  'valid commands.',
  'The parser tests list well-formed inputs and half a dozen malformed ones.',
  ['marcel/parser.py', 'marcel/stringliteral.py', 'marcel/main.py', 'marcel/exception.py'],
  [('Lexer, Parser and their KillCommandException subclasses', 'marcel/parser.py'),
   ('handling of KillCommandException', 'marcel/main.py parse_and_run_command')],
  ['exception type leaving the parser', 'later command output'])

p('C10', 'Arguments reach operators verbatim under every quoting and spacing style',
  'Any string argument, written bare with backslash escapes, or between quotes of a kind it does not contain '
  '(with its backslashes doubled between double quotes), reaches the operator as exactly that string, whatever its '
  'characters; a quoted or escaped filename denotes the file of that name; an argument made of adjacent '
  'text and parenthesised expressions is their concatenation. Extra whitespace, and comments after an '
  'unquoted #, never change the meaning of a command; a Python expression in parentheses (with nested brackets, '
  'strings and lambdas) evaluates to the value Python gives it.',
  ['inputs', 'programs'],
  'All strings over a character set including quotes, backslashes, spaces, #, pipes, parentheses and unicode, in all '
  'quoting styles and spacings; all Python literals/expressions.',
  'The unit tests quote a handful of words; the parser unit tests do not even run in this environment.',
  ['marcel/parser.py', 'marcel/stringliteral.py', 'marcel/function.py'],
  [('Lexer String/PythonExpression/ShellString tokens', 'marcel/parser.py'),
   ('StringLiteral.value', 'marcel/stringliteral.py')],
  ['value received by the operator'])

p('C11', 'Redirection symbols are exactly the corresponding operators',
  'cmd > file, cmd >> file, file < cmd, cmd >$ var, cmd >>$ var and var <$ cmd have exactly the effect of the write, '
  'write --append, read, store, store --append and load operators they stand for, in every combination and position the grammar allows '
  'and with any spacing; > replaces and >> extends the target, and both create it if absent.',
  ['programs', 'histories'],
  'All histories of redirections over a pool of files and variables, in all spellings.',
  'The tests run each redirection form once or twice from a clean state.',
  ['marcel/parser.py', 'marcel/op/redirect.py', 'marcel/op/write.py', 'marcel/op/read.py', 'marcel/op/store.py',
   'marcel/op/load.py'],
  [('arrow tokens and redirect ops', 'marcel/parser.py')],
  ['file contents', 'reservoir contents', 'pipeline output'])

p('C12', 'Flags mean the same in every order and spelling; invalid usage is rejected',
  'For every operator, its flags may be given in any order, in short, long or combined short form, before the other '
  'arguments, with the same effect. A command with an unknown or repeated flag, a missing or ill-typed value, '
  'mutually exclusive flags, missing or surplus arguments is rejected with an error naming the operator or the offending argument, before anything runs.',
  ['inputs', 'configurations'],
  'All operators with all combinations and orders of their documented flags and arguments, plus one generated defect.',
  'The tests use one spelling of each flag and a few invalid commands.',
  ['marcel/argsparser.py', 'marcel/op/*.py'],
  [('ArgsParser flags, anons, at_most_one/exactly_one', 'marcel/argsparser.py')],
  ['operator output', 'error text'])

p('C13', 'A failing tuple becomes an error in place and affects nothing else',
  'When a user function fails on some tuples of a stream, exactly those tuples are replaced by an error, in place, '
  'that names the operator and the failing input, and every other tuple is processed as if the failing ones were '
  'absent. Errors travel through all later operators to the end, and are printed by the terminal write. A command with an argument, or a value to be assigned, that cannot be computed has no effect, and is reported by one message.',
  ['inputs', 'fault_sequences', 'programs'],
  'All streams with failures at any subset of positions, in any operator of a pipeline.',
  'The tests raise ZeroDivisionError at one position in a few operators.',
  ['marcel/core.py', 'marcel/object/error.py', 'marcel/exception.py', 'marcel/op/*.py'],
  [('Op.call, fatal_error, non_fatal_error, receive_error', 'marcel/core.py')],
  ['items and errors at the end of the pipeline', 'stderr/stdout'])

p('C14', 'Variables behave as one consistent store of assigned values',
  'After any history of assignments (strings, expressions, functions, pipelines, imports), redefinitions and '
  'deletions, every variable has exactly the value last assigned to it, through every way of reading it (expressions, env, '
  'function bodies, calling it as an operator); deleted variables are undefined. Attempts to assign or '
  'delete marcel\'s protected variables fail and change nothing.',
  ['histories'],
  'All command histories of assign/delete/import/use over a pool of names, including operator and executable names.',
  'The tests assign two or three variables and read them once.',
  ['marcel/nestednamespace.py', 'marcel/object/workspace.py', 'marcel/op/assign.py', 'marcel/op/env.py',
   'marcel/op/import.py', 'marcel/env.py', 'marcel/opmodule.py'],
  [('NestedNamespace and EnvValue cache', 'marcel/nestednamespace.py'), ('VarHandler', 'marcel/object/workspace.py')],
  ['env output', 'expression values'])

p('C15', 'Reservoirs hold exactly the stream that was stored in them',
  'Loading a reservoir yields exactly the tuples stored in it, in order and with equal values and types: those of the '
  'last overwriting store followed by those of all later appending stores. Histories over several reservoirs do not '
  'interfere; a store of an empty stream leaves an empty reservoir; using one reservoir as '
  'source and target of the same sequence of operators, or loading a non-reservoir variable, is an error that leaves its contents intact.',
  ['histories', 'inputs'],
  'All histories of store, store --append, load and variable reassignment over a pool of variables, in the language and the API.',
  'The tests do one store/append/load sequence with small integers.',
  ['marcel/reservoir.py', 'marcel/picklefile.py', 'marcel/op/store.py', 'marcel/op/load.py'],
  [('PickleFile reader/writer', 'marcel/picklefile.py'), ('Reservoir', 'marcel/reservoir.py')],
  ['load output'])

p('C16', 'Tuples survive write and read in every file format',
  'Reading back a file written by write in CSV, TSV, pickle or plain-text form yields the tuples that were written, in order '
  'and (for the formats that define it) with equal values; --append extends a file with the later tuples; write '
  'passes its input on unchanged. read delivers every record of every named file exactly once, in file and line order, '
  'with --label adding the file it came from, --headings and --skip-headings treating exactly the first line as headings.',
  ['inputs'],
  'All streams of strings and numbers (with delimiters, quotes, blank values, unicode), all formats, options and '
  'numbers of files.',
  'The tests read three fixed files and write three fixed streams.',
  ['marcel/op/read.py', 'marcel/op/write.py', 'marcel/picklefile.py'],
  [('CSVReader/CSVWriter, PickleReader/PickleWriter, TextWriter', 'marcel/op/read.py, marcel/op/write.py')],
  ['read output', 'file contents'])

p('C17', 'JSON values are parsed and rendered without loss',
  'For every JSON document, decoding it (read --json, json_parse) and re-encoding it (json_format) yields an equal '
  'document, and every member is reachable by name or index with its value. Structures built by o(...) '
  'encode as the object with those members.',
  ['inputs'],
  'All JSON documents: nested objects/arrays, unicode keys and values, keys that are not identifiers, numbers, null.',
  'The tests decode one example each of object, array and scalar.',
  ['marcel/jsonutil.py', 'marcel/structish.py', 'marcel/op/read.py', 'marcel/builtin.py'],
  [('decode to Struct/encode', 'marcel/jsonutil.py')],
  ['decoded structure', 'encoded text'])

p('C18', 'ls lists exactly the files selected by its arguments, each once',
  'For every directory tree and every list of paths and glob patterns, ls emits exactly the files, directories and '
  'symlinks selected by the arguments, depth flag (-0, -1, -r) and type flags, each path once, directories '
  'before their contents and siblings sorted, terminating in spite of symlink cycles. Unreadable directories '
  'give an error for that directory and hide nothing else; read --file arguments and cd arguments resolve names in the same way.',
  ['inputs', 'configurations'],
  'All directory trees (nested, empty dirs, symlinks to files/dirs/nowhere/ancestors, special characters in '
  'names, unreadable directories) and argument lists.',
  'The ls tests do not run in this environment, and would cover one fixed tree.',
  ['marcel/op/ls.py', 'marcel/op/filenamesop.py', 'marcel/op/filenames.py', 'marcel/object/file.py'],
  [('Filenames.normalize', 'marcel/op/filenames.py'), ('visit', 'marcel/op/filenamesop.py')],
  ['emitted File objects'])

p('C19', 'The directory stack and current directory follow the shell model',
  'After any history of cd, pushd, popd and dirs, pwd, dirs, PWD, DIRS and the directory in which files and '
  'executables are resolved agree with the stack model (cd replaces the top, pushd pushes or swaps, popd pops but '
  'never the last entry, dirs -c keeps the top). A failing command (missing or inaccessible directory, a '
  'file, several matches) changes nothing; directories that disappear are dropped from the stack.',
  ['histories', 'fault_sequences'],
  'All histories of these commands over a directory tree in which directories are also removed, recreated and made inaccessible.',
  'One test walks a fixed sequence of five commands.',
  ['marcel/directorystate.py', 'marcel/op/cd.py', 'marcel/op/pushd.py', 'marcel/op/popd.py', 'marcel/op/dirs.py',
   'marcel/op/pwd.py'],
  [('DirectoryState over PWD/DIRS', 'marcel/directorystate.py')],
  ['command output', 'variables', 'os.getcwd()'])

p('C20', 'A workspace restores everything that was saved in it, and nothing else',
  'After closing and reopening a workspace, any number of times, in the same session or a later one, and with other '
  'workspaces used in between, every variable assigned in it (strings, numbers, containers, functions, pipelines, '
  'imported symbols, reservoirs) has the value or behaviour it had at closing, and deleted variables stay deleted. A '
  'variable whose value cannot be saved or restored is reported, and harms neither the other variables nor the '
  'workspace. The current directory is kept when workspaces are switched. Nothing is visible in another workspace; the '
  'default workspace starts without variables of earlier sessions, and leaves no files behind.',
  ['histories'],
  'All histories of variable changes, reservoir changes, cd, and opening/closing several workspaces and sessions.',
  'The tests make a fixed short history with a few variables.',
  ['marcel/object/workspace.py', 'marcel/nestednamespace.py', 'marcel/persistence/persistence.py', 'marcel/op/ws.py',
   'marcel/env.py', 'marcel/picklefile.py'],
  [('EnvValue persistence', 'marcel/nestednamespace.py'), ('Workspace open/close', 'marcel/object/workspace.py')],
  ['variables after reopening', 'files under the home directory'])

p('C21', 'A workspace has one owner at a time; its existence changes only on request',
  'At any time a workspace is open in at most one process: opening or deleting it elsewhere fails with a message and '
  'changes nothing, until the owner closes it or has died, after which it can be opened again. Listing shows '
  'exactly the existing workspaces; creating an existing one, opening or deleting a missing one, deleting '
  'the open one, and invalid names are rejected without effect; deleting removes all of that workspace and nothing else.',
  ['histories', 'crash_points', 'schedules'],
  'All interleavings of create/open/close/delete/list/crash over several processes and workspaces.',
  'The tests use one process; ownership by another process, dead owners and leftover marker files are not reached.',
  ['marcel/object/workspace.py', 'marcel/op/ws.py', 'marcel/locations.py'],
  [('marker file rename .WORKSPACE -> .WORKSPACE.<pid>', 'marcel/object/workspace.py')],
  ['command results', 'files under the home directory'])

p('C22', 'Damaged workspaces never harm healthy ones, or prevent marcel from starting',
  'Whatever files of a workspace are missing, superfluous, or of the wrong type, starting marcel succeeds, reports each '
  'damaged workspace, moves its remaining files intact to the broken area, and leaves every healthy workspace '
  'unchanged and usable. A workspace with unreadable contents cannot be opened, which is reported, changes none of its files, and leaves '
  'startup, listing and all other workspaces unaffected. The default workspace is recreated if damaged. Marcel starts '
  'after a crash at any moment. An undamaged installation is never reported or moved.',
  ['fault_sequences', 'crash_points'],
  'All combinations of damage to the files of several workspaces, including the default one, and all crash points of file modifications.',
  'The validation test removes or damages a few files, one at a time.',
  ['marcel/object/workspace.py', 'marcel/persistence/persistence.py', 'marcel/main.py', 'marcel/locations.py'],
  [('WorkspaceValidater, validate_all, mark_broken', 'marcel/object/workspace.py, marcel/persistence/persistence.py')],
  ['files under the home directory', 'stderr of startup', 'variables'])

p('C23', 'Upgrading any older storage layout preserves the user\'s configuration and data',
  'Starting a new version on a home directory in any earlier storage layout yields the current layout with the '
  'startup scripts, workspaces, reservoirs, and command history (if written since 0.32; older ones are replaced by a notice) '
  'of the old one preserved; starting again changes nothing, and a fresh '
  'home directory gets a usable default installation. VERSION contains the newest version that has been used.',
  ['configurations', 'inputs'],
  'All earlier layouts with generated configuration, history and workspace contents.',
  'No test runs a migration.',
  ['marcel/persistence/storagelayout.py', 'marcel/locations.py'],
  [('StorageLayout migrations', 'marcel/persistence/storagelayout.py')],
  ['files under the home directory'])

p('C24', 'fork delivers every output of every child exactly once',
  'For every fork generator (positive int or non-empty iterable) and pipeline, the output is an interleaving of the '
  'complete outputs of the pipeline run once for each thread id, each child\'s outputs in order, errors included; '
  'nothing is lost or duplicated however unevenly the children produce and finish. Variables of the session are unaffected by the children.',
  ['inputs', 'schedules'],
  'All numbers of children, output volumes per child, and relative speeds.',
  'The tests fork three children that all emit the same few tuples.',
  ['marcel/op/fork.py', 'marcel/op/forkmanager.py'],
  [('round robin consumption of the children\'s pipes', 'marcel/op/forkmanager.py')],
  ['items reaching the end of the pipeline'])

p('C25', 'Host executables get exact arguments and input; all their output is delivered',
  'An executable in a pipeline receives exactly the arguments written on the command line, receives each input item '
  'as one line of standard input, and each line it writes to standard output becomes one output string, in order and completely, '
  'for any volume of data in either direction. Its standard error is reported, and its position '
  '(first, middle, last) in the pipeline makes no difference.',
  ['inputs', 'programs'],
  'All argument strings, input streams and output volumes, in all positions of a pipeline.',
  'The tests run cat/echo/ls with simple arguments.',
  ['marcel/op/bash.py', 'marcel/parser.py', 'marcel/util.py'],
  [('NonInteractive subprocess with reader threads', 'marcel/op/bash.py'), ('quote_files', 'marcel/util.py')],
  ['argv and stdin recorded by the executable', 'items reaching the end of the pipeline'])

p('C26', 'Pipelines run remotely or under sudo behave as if run locally',
  'A pipeline executed by sudo or remote, literal or stored in a variable, produces the tuples and errors that it produces '
  'locally (for remote, prefixed by or labelled with the host), each host\'s results complete and in order, whatever happens '
  'to the other hosts, using the variables and functions defined by the startup script on the other side; what is printed there '
  'and failures to connect do not get mixed up with results and do not go unnoticed. Arguments of sudo, and names of users, '
  'identities and hosts, are passed on exactly. upload and download transfer exactly the named files, with their contents, '
  'to and from each host, for any file name.',
  ['programs', 'inputs'],
  'All pipelines; any number of hosts, configured and failing in different ways; any file names.',
  'The remote tests do not run here (no sshd), and use two or three pipelines.',
  ['marcel/op/sudo.py', 'marcel/op/remote.py', 'marcel/op/upload.py', 'marcel/op/download.py', 'bin/farcel.py',
   'marcel/pipeline.py', 'marcel/env.py', 'marcel/object/cluster.py'],
  [('pickled env and pipeline, farcel', 'bin/farcel.py'), ('ForkManager', 'marcel/op/forkmanager.py')],
  ['items reaching the end of the pipeline', 'files'])

p('C27', 'File objects report true metadata, compare as paths and survive pickling',
  'For every file, the properties of the File that ls emits (size, times, mode, owner, path parts, extension) equal what the operating '
  'system reports, its long rendering shows the correct type, permissions, owner and size, Files sort and compare as '
  'their paths do, and a File that was stored, sent or reopened later denotes the same absolute path whatever the current directory.',
  ['inputs', 'configurations'],
  'All kinds of files (regular, directory, symlink incl. broken, fifo, socket), modes, names and sizes.',
  'The ls tests do not run here; no test checks properties or renderings systematically.',
  ['marcel/object/file.py', 'marcel/op/ls.py', 'marcel/util.py'],
  [('File properties, render_full, pickling', 'marcel/object/file.py')],
  ['attribute values', 'rendered text'])

p('C28', 'Tab completion offers exactly the valid continuations, correctly quoted',
  'For every command prefix, completion offers exactly the operators, flags, help topics or files that continue it. Every offered '
  'file, spliced into the command line in place of the partial word, parses to an argument that denotes that existing file, '
  'whatever characters its name contains and whichever quoting style the user started with.',
  ['inputs'],
  'All directory contents with special characters, all partial words in bare, single- and double-quoted style, all contexts.',
  'The tests use a few fixed names with spaces and quotes.',
  ['marcel/tabcompleter.py', 'marcel/parser.py', 'marcel/util.py'],
  [('TabCompleter.candidates / complete_filename', 'marcel/tabcompleter.py')],
  ['candidate lists'])

p('C29', 'Command history is recorded and recalled verbatim',
  'Every command entered interactively, including multi-line and non-ASCII ones, is recorded verbatim and in order (a command '
  'identical to its predecessor need not be recorded again) in the history of its workspace, survives restarts and switching of workspaces, and is shown by '
  'history with consecutive ids; !N, !!, run N and edit N recall exactly command N (run: the previous command), and what is recalled is executed. '
  'history shows the last 20, history N the last N, history --all everything, and history --command STRING exactly the commands containing the string. Every '
  'command entered is executed, also the first one following a modification of the startup script.',
  ['histories', 'inputs'],
  'All sequences of commands and restarts, all command texts.',
  'No test in the suite exercises history.',
  ['marcel/reader.py', 'marcel/op/history.py', 'marcel/op/run.py', 'marcel/op/edit.py',
   'marcel/object/historyrecord.py'],
  [('History of prompt_toolkit over the workspace history file', 'marcel/reader.py')],
  ['history output', 'recalled commands'])

p('C30', 'Executing a pipeline is repeatable and observation does not change it',
  'Running the same pipeline value any number of times, at top level, in a loop over args/case, or nested in other '
  'pipelines, gives the same result each time for the same inputs: no state of one execution leaks into the next. '
  'Turning tracing on or off, or storing the pipeline in a variable first, does not change results.',
  ['programs', 'histories'],
  'All pipelines of stateful operators (sort, tail, window, red, unique, join, ...), all numbers of repetitions and ways '
  'of invoking.',
  'Tests execute each pipeline once.',
  ['marcel/pipeline.py', 'marcel/core.py', 'marcel/env.py', 'marcel/op/trace.py', 'marcel/op/runpipeline.py'],
  [('Op.copy, Pipeline.copy, setup per run', 'marcel/pipeline.py'), ('Trace', 'marcel/env.py')],
  ['items reaching the end of the pipeline'])

p('C31', 'sql passes statements and values faithfully and commits exactly as asked',
  'For every sequence of input tuples, sql executes the statement once per tuple with that tuple\'s values (or its ARGs, if given), emits exactly the '
  'selected rows or the update counts asked for, and leaves the database with all changes committed on '
  'success, in units of the --commit count or per statement under --autocommit; when a statement fails, the '
  'uncommitted changes are rolled back and the connection is closed.',
  ['inputs', 'fault_sequences'],
  'All input streams and statements, commit counts, and failure positions.',
  'There is no database in the test environment; the suite has no sql test.',
  ['marcel/op/sql.py', 'marcel/object/db.py'],
  [('SqlSelect/SqlInsert/SqlOther, commit counting', 'marcel/op/sql.py')],
  ['database contents after the command', 'calls received by the driver'])

p('C32', 'Scripts run exactly their commands, with exactly their arguments',
  'Running a script file or here-document executes the same commands with the same output as entering them one by one: '
  'lines ending in a backslash continue on the next line, blank lines and comments do nothing, a failing command does not '
  'stop the rest. parse_args gives a script exactly the flag and positional values of its command line, converted as '
  'declared, or rejects the command line with the usage message. Opening a workspace, on starting marcel or by a ws command in a script, '
  'runs the startup scripts which its startup.py names with run_on_startup, and only those. Variables defined by startup.py cannot be modified or deleted by commands. '
  'If a startup.py fails, or defines a variable that marcel defines, nothing is run with it, the reason is reported, and the exit status is not 0.',
  ['programs', 'inputs'],
  'All scripts of generated commands with arbitrary line structure; all argument lists for generated declarations.',
  'The tests never run a script, and parse_args has no test.',
  ['marcel/main.py', 'marcel/util.py', 'marcel/cliargs.py', 'bin/marcel'],
  [('commands_in_script, main_script_run', 'marcel/main.py'), ('parse_args', 'marcel/cliargs.py')],
  ['stdout/stderr of the marcel process', 'parsed values'])

p('C33', 'Commands run as jobs have their effects on the session and only those',
  'In an interactive session, where commands run in separate job processes, a command\'s output is complete before '
  'the next prompt, and the variables it assigns, stores to, imports or deletes, and its changes of directory and directory stack, are visible to later '
  'commands exactly as if it had run in the session itself. A command that is rejected, fails, is interrupted by Ctrl-C, or whose process dies, leaves '
  'the session usable. Ctrl-Z suspends the command, jobs lists exactly the suspended and background commands, bg and fg resume the one asked for, '
  'which then completes and takes effect as usual; no process of a job survives its being killed or the end of the session.',
  ['histories', 'fault_sequences'],
  'All histories of commands that assign, store, cd, fail or die in an interactive session, and of Ctrl-Z, Ctrl-C, bg, fg and kill.',
  'The tests run all commands in the main process (testing mode bypasses jobs).',
  ['marcel/job.py', 'marcel/main.py', 'marcel/object/workspace.py', 'marcel/core.py', 'marcel/op/jobop.py'],
  [('JobControl, child namespace changes', 'marcel/job.py'), ('changes()', 'marcel/object/workspace.py')],
  ['terminal output of an interactive session on a pseudo-terminal'])

p('C34', 'Formatted help and rendered output never lose or alter text',
  'Whatever the terminal width, formatting a help text keeps every word of it, in order, breaks '
  'lines only between words, never exceeds the width where words allow, and leaves unwrapped paragraphs as they are; '
  'every operator and documented topic has help. Colouring never changes the text other '
  'than by adding colour codes.',
  ['inputs', 'configurations'],
  'All markup texts built from the help notation, at all widths.',
  'The help test prints the existing topics at one width.',
  ['marcel/helpformatter.py', 'marcel/op/help.py', 'marcel/util.py', 'marcel/object/color.py'],
  [('HelpFormatter paragraphs and markup', 'marcel/helpformatter.py'), ('colorize', 'marcel/util.py')],
  ['formatted text'])

p('C35', 'The prompt shows exactly the configured pieces, and where the user is',
  'The prompt consists of the strings given to set_prompt and of the current values of its functions, in order, each in the color set by the '
  'preceding color, whether that color was given or computed by a function; no color is in effect after the prompt. A function that fails is '
  'reported, and does not end the session. PROMPT_DIR names the current directory: ~ and the path below it inside HOME (or, in a workspace with a home, '
  'the path relative to that home), and the absolute path everywhere else, also if the home is given relative to ~ or via links, and in directories whose names '
  'merely start with that of the home.',
  ['inputs', 'histories', 'configurations'],
  'All lists of pieces, all histories of cd, pushd, popd, changes of the workspace and of its home.',
  'No test shows a prompt.',
  ['marcel/env.py', 'marcel/builtin.py', 'marcel/object/workspace.py', 'marcel/util.py'],
  [('EnvironmentInteractive.prompt', 'marcel/env.py'), ('Workspace.set_home', 'marcel/object/workspace.py')],
  ['the prompt'])

p('C36', 'ps lists exactly the processes selected, with their true attributes',
  'ps lists every process exactly once, or exactly those whose real, effective or saved user (group) is the given one (by name or id; by default the current one), '
  'which has the given pid, or whose name, executable or some argument contains the given string; the same on the command line and in the API. The attributes '
  'and renderings of the processes are those the system reports, and a signal is sent to exactly the process it is meant for. An unusable selection is rejected.',
  ['inputs', 'configurations'],
  'All selections, by processes of all states started with arbitrary names and arguments.',
  'The tests run ps for their own process only.',
  ['marcel/op/ps.py', 'marcel/object/process.py'],
  [('Ps.setup filters', 'marcel/op/ps.py'), ('Process', 'marcel/object/process.py')],
  ['operator output'])

p('C37', 'env shows exactly the variables there are, with their current values',
  'env writes one pair (name, value) for each variable that can be used at that point - including the parameters of the pipelines being run, which hide variables of '
  'the same name - sorted by name, with its current value; env VAR just that variable, or an error if there is none; -p those whose name contains the string; -o the '
  'same for the environment of the process; -b includes __builtins__. -d removes exactly the named variable, and reports what it was; variables defined by marcel cannot be removed.',
  ['inputs', 'histories'],
  'All histories of assignments, imports, stores, deletions, and changes of directory, in nested pipelines.',
  'The tests inspect a few variables.',
  ['marcel/op/env.py', 'marcel/env.py', 'marcel/nestednamespace.py'],
  [('EnvMarcel', 'marcel/op/env.py'), ('NestedNamespace', 'marcel/nestednamespace.py')],
  ['operator output'])

p('C38', 'timer generates increasing timestamps at its interval until it is interrupted',
  'timer generates one timestamp after another, each the time at which it was generated, none twice, on average at least the interval apart, '
  'no matter how long each takes to be processed. It goes on until it is interrupted; after that nothing of it is left running.',
  ['inputs', 'schedules'],
  'All intervals and speeds of the consumer, and interruptions after any number of timestamps.',
  'timer has no test.',
  ['marcel/op/timer.py'],
  [('Timer', 'marcel/op/timer.py'), ('Metronome', 'marcel/op/timer.py')],
  ['operator output', 'threads'])

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, (x['id'], len(x['title']))
            f.write(json.dumps(x) + '\n')
    print(len(P))
