PBT = 'property-based testing (Hypothesis)'
_N = 'Nothing is proved beyond the generated cases. '
NOTES['C01'] = (f'{PBT}: generated pipelines against an independent reference model',
                'Random pipelines of these operators over random streams agree with a list model. ' + _N + 'Trusts the model in harness/ops.py.')
NOTES['C02'] = (f'{PBT}: generated streams and arguments against an independent reference model',
                'Random per-tuple pipelines agree with a list model, including pos(). ' + _N + 'Trusts the model in harness/ops.py.')
NOTES['C03'] = (f'{PBT}: generated streams and reductions against an independent reference model',
                'Random red pipelines agree with a dictionary model. ' + _N + 'Trusts the model in harness/ops.py.')
NOTES['C04'] = (f'{PBT}: generated bags against a multiset model',
                'Random operands agree with collections.Counter semantics. ' + _N)
NOTES['C05'] = (f'{PBT}: generated relations against a nested-loop join',
                'Random streams agree with a nested-loop join, and the right side is run once. ' + _N)
NOTES['C06'] = (f'{PBT}: generated branch lists and batches against an independent reference model',
                'Random case/args programs agree with a list model. ' + _N)
NOTES['C07'] = (f'{PBT}: generated programs of parameterised pipelines against an interpreter, with the session inspected after each command',
                'Random programs over a shared pool of names. ' + _N + 'One known finding is tolerated, see known-findings.txt.')
NOTES['C08'] = (f'{PBT}: differential, the same generated pipeline in the API and in the language, and against a reference model',
                'Random pipelines rendered in both forms, all forms of execution, and function notations. ' + _N)
NOTES['C13'] = (f'{PBT}: generated failing functions against an independent reference model, and a metamorphic relation (stream without the failing inputs)',
                'Random pipelines with failures in any operator; values, errors, order and printed lines. ' + _N)
NOTES['C30'] = (f'{PBT}: generated pipelines executed repeatedly in several ways against a reference model; differential, traced and untraced sessions',
                'Random stored pipelines, executed 3 to 6 times in generated ways; random command histories with and without tracing. ' + _N)
NOTES['C09'] = (f'{PBT}: grammar-based and mutational fuzzing of the parser and main loop, oracle: exception type, audit hook for effects, probe commands afterwards',
                'Random token soups, mutated valid commands, random characters. Texts that would run executables are only parsed. ' + _N)
NOTES['C10'] = (f'{PBT}: round trip of generated strings through every quoting style; metamorphic spacing and comments; differential against eval() for expressions',
                'Random strings, argument layouts and expressions. Mixed quoting within one word, and filename patterns, are not covered. ' + _N)
NOTES['C11'] = (f'{PBT}: generated histories of redirections against a model of files and variables',
                'Random histories over a small pool of files and variables, with unwritable and missing targets. ' + _N)
NOTES['C15'] = (f'{PBT}: generated histories of store/load/delete/copy against a model of the reservoirs; language and API',
                'Random histories over three variables, with mutated, unpicklable and failing values. ' + _N)
NOTES['C14'] = (f'{PBT}: generated histories of assignments, imports, stores, deletions and uses against a model of the variables',
                'Random histories over a pool of names including an operator and an executable. ' + _N)
NOTES['C16'] = (f'{PBT}: generated tuples written in each format, and read back; generated files read in each way, against a model of read',
                'Generated tuples, files (including unreadable and malformed ones), names and options. ' + _N)
NOTES['C12'] = (f'{PBT}: generated usages of every operator in two generated orders and spellings (metamorphic), and with one generated defect',
                'A table of the flags and arguments of 40 operators; expected rejections follow from the table, not from the code. ' + _N)
NOTES['C17'] = (f'{PBT}: generated documents (and corrupted ones) and o(...) expressions, differential against the json module of Python',
                'Generated documents, including unusual keys and numbers, through json_parse, read --json, json_format, store and load. ' + _N)
NOTES['C18'] = (f'{PBT}: generated directory trees and arguments of ls, against a model of filename expansion and traversal',
                'Generated trees with links (also cyclic and broken), special files, odd names and directories lacking permissions. ' + _N)
NOTES['C19'] = (f'{PBT}: generated histories of directory commands and faults, against a model of the stack',
                'Random histories over generated trees; directories are removed, replaced and locked between commands. ' + _N)
NOTES['C20'] = (f'{PBT}: generated histories of variable changes and workspace switches within a session, and over several processes (some killed), against a model of each workspace',
                'Random histories over three workspaces, with values of 40 kinds. After a crash only variables whose reservoirs did not change are predicted. ' + _N)
NOTES['C21'] = (f'{PBT}: generated histories of workspace commands in several processes, some of which crash, against a model; generated interleavings of file modifications',
                'Random histories of up to three processes; interleavings at the granularity of file modifications, announced by an audit hook. ' + _N)
NOTES['C22'] = (f'{PBT}: generated damage to the files of several workspaces, and crashes at generated file modifications, followed by sessions that are checked against a model',
                'Random combinations of removed, added, replaced and truncated files and directories; crash points from an audit hook. Power failures (lost writes) are not modelled. ' + _N)
NOTES['C23'] = (f'{PBT}: generated home directories in each of the earlier layouts, started with the current version; compared file by file, and used',
                'Six layouts with random contents. Old layouts are constructed from the code and history of the repository, not by running old versions. ' + _N)
NOTES['C24'] = (f'{PBT}: generated programs run by fork with generated thread ids, volumes and pauses, against a reference model; language and API',
                'Random numbers of children, outputs of up to 70 kB each, pauses of up to 30 ms; killed children are not covered. ' + _N)
NOTES['C25'] = (f'{PBT}: generated arguments in all quoting styles, input streams and scripted outputs, against executables that record what they receive; differential with and without the executable; generated failures on either side',
                'Streams of up to 6000 items or 800 kB; scripts of up to 7 steps. Values of expressions and arguments of the bash operator are inserted into the shell command unquoted, and are generated accordingly. ' + _N)
NOTES['C27'] = (f'{PBT}: generated directory trees listed, printed, stored, pickled and sent to other processes, against os.lstat, pathlib and an independent rendering',
                'Trees of up to 12 entries with links, loops and odd names; metadata of other systems synthesised. Sockets and devices, which ls does not list, are not covered. ' + _N)
NOTES['C28'] = (f'{PBT}: generated partial command lines and directories; offers compared with independent lists, and every completed line parsed and evaluated; arbitrary text must not fail',
                'Random file names of up to 7 characters, half of them special to marcel or the shell; the completer is driven directly, without a terminal. Names starting with - or ~ are not covered. ' + _N)
NOTES['C29'] = (f'{PBT}: generated interactive sessions, typed through prompt_toolkit, compared with a model of the histories of the workspaces, including what recalled commands print',
                'Up to 25 steps per history, three workspaces, several sessions. Commands run in the session\'s process instead of jobs. run N naming itself is not covered. ' + _N)
NOTES['C26'] = (f'{PBT}: generated pipelines run locally, by sudo and by remote (differential); generated clusters, some hosts of which fail, against what their own configurations imply; generated directory trees and file arguments of upload and download against the resulting files; the API against the reference model',
                'sudo, ssh and scp are stand-ins that record how they are called and run farcel.py, or copy files, on this machine. ' + _N)
NOTES['C31'] = (f'{PBT}: generated statements, inputs, options and injected database failures against a reference model of the transactions; the observed states are those the (stand-in) database committed',
                'The database is an in-memory stand-in for psycopg2 that knows a few statement forms on one table; at most 9 inputs. ' + _N)
NOTES['C32'] = (f'{PBT}: generated scripts with arbitrary line structure against the same commands run one by one in a session of their own; generated declarations and argument lists against a reference parser of command lines; generated command lines of marcel; generated startup scripts in several workspaces against a model of which are run',
                'Lines ending in two backslashes, blank lines within continuations, and values starting with "-" are not specified. ' + _N)
NOTES['C34'] = (f'{PBT}: help documents generated as paragraphs, lines and marked regions, rendered as markup, formatted at all widths, and compared with what they were generated from; all existing topics at random widths and colours; coloured renderings compared with plain ones',
                'Well-formed markup only (unbalanced braces and markup without content are mistakes of help authors). ' + _N)
NOTES['C33'] = (f'{PBT}: interactive sessions on a pseudo-terminal: generated histories of commands against the same commands run in a session without jobs; generated histories of start, Ctrl-Z, Ctrl-C, bg, fg, jobs, kill and completion, controlled through files, against a model of the jobs',
                'Values changed in place by a job, and values that cannot be pickled, do not reach the session or the job. Executables are not suspended with the job that runs them. Effects of a job that dies are unspecified, apart from variables. ' + _N)
NOTES['C35'] = (f'{PBT}: generated prompts and histories of directory and workspace changes; the prompt is interpreted as a terminal does and compared, character by character and color by color, with a model',
                'Pieces that are neither strings, colors nor functions end the session deliberately and are not covered. ' + _N)
NOTES['C36'] = (f'{PBT}: processes started with generated names, arguments and states; ps with generated selections, on the command line and in the API, against /proc',
                'Processes of several users cannot be started, those of the system are used instead. Processes that start or end while ps runs may be listed or not. ' + _N)
NOTES['C37'] = (f'{PBT}: generated histories of changes of variables and of env commands, also in pipelines with parameters, against a model',
                'Up to 12 steps. ' + _N)
NOTES['C38'] = (f'{PBT}: generated intervals, consumers and interruptions; invariants of the timestamps and of the threads',
                'Intervals of up to 30 ms. That timestamps are generated in time is not checked, as that depends on the load of the machine. ' + _N)
