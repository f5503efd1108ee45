"""Writes properties.jsonl (run by hand; the .jsonl is the committed artefact)."""
import json, os
S = 'gcs/storage.py'; T = 'gcs/slice_tools.py'; V = 'gcs/_version.py'; Z = 'versioneer.py'; I = 'gcs/__init__.py'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

p('C01', 'Assignments land exactly on the addressed elements, over any history',
  "In every storage format (buffer, strided, coordinate, flat coordinate, compressed-row, dimensions-mapped over any of them), after any sequence of element and slice assignments each specified element reads back as the value most recently assigned to it, or its initial value, and every element that was not addressed keeps its value. An element the array does not specify reads as the array's unspecified value, and assigning to it changes nothing. This holds on any kind of backing memory and when operations that met a transient device failure are retried.",
  ['histories', 'configurations', 'fault_sequences'],
  'all sequences of element/slice assignments and reads on all formats, shapes, dimension mappings, strides and backing devices, with transient device failures between and inside operations',
  'The tests make one or two assignments on a fully specified 2x3 array and look only at the element they assigned; nothing looks at the other elements, at sparse patterns, or at a second assignment after the first.',
  [S, T],
  [('Storage.__setitem__ addresses elements through the slice solver', S), ('solve_index membership test', T), ('Strided.slice_indices_and_data_position', S), ('get_*_position binary searches', S)],
  ['storage[index]', 'storage[index] = value', 'storage.elements()', 'contents of the caller-supplied backing memory'],
  [('data', 'values of specified elements, kept in a Buffer over caller memory', S)])

p('C02', 'Slices of shared storage are coherent live views, taken without reading data',
  "Slicing a buffer, a strided array, or a dimensions-mapped array (when its storage is strided, or when the slice keeps the storage dimensionality) yields, through any chain of further slices, exactly the elements that the same chain selects from the nested list, as a live view: an assignment through the base or any view is visible at once through all of them. Taking such a slice reads and writes no stored element, so it succeeds while the backing device is failing.",
  ['histories', 'configurations', 'fault_sequences'],
  'all chains of slices (negative steps, fixed axes, empty ranges) over all formats that share, interleaved with assignments through any member of the family, with the device failing at any access',
  'Tests slice once and compare values; no test slices a slice of a dimensions-mapped array, writes through a view and looks at the base, or observes whether slicing touched the data.',
  [S, T],
  [('Strided.get_slice shares the buffer with a shifted offset', S), ('Buffer.__getitem__ shares caller data', S), ('DM.__getitem__ rewrites rstrides/roffset instead of moving data', S), ('index_strided', T)],
  ['view[index]', 'base[index]', 'device access log while slicing'],
  [('roffset/rstrides', 'position of a dimensions-mapped view inside its storage', S)])

p('C03', 'Copies, conversions and sparse slices are isolated snapshots',
  "A copy, a conversion to another format, and a slice of a coordinate, flat-coordinate or compressed-row array hold exactly the elements the source had when they were taken, and from then on are independent of it: no later assignment to either side, or to any view of either side, shows on the other. This holds also for backing memory whose own slices alias it.",
  ['histories', 'configurations', 'fault_sequences'],
  'all histories that take copies/conversions/sparse slices of arrays and views and then assign to both sides, on backing memories whose slices copy and whose slices alias',
  'No test assigns to a copy or a converted array and looks at the source, and every test uses Python lists, whose slices hide a missing copy.',
  [S],
  [('Buffer.copy / Strided.copy / Storage.copy', S), ('fromobject conversions copy seq.data and indices', S), ('COO/FlatCOO/CSR.get_slice build fresh buffers', S)],
  ['elements of both sides after each assignment', 'contents of the caller-supplied backing memory'])

p('C04', 'A failed read operation is reported, harmless, and repeatable',
  "When a device read or an allocation fails, or an interrupt arrives, at any point inside an operation that does not assign (element read, slicing, iteration, copy, conversion, comparison), the caller receives that failure, or else the complete correct answer; never a result with missing, stale or wrong elements. No array involved is changed, and the same operation succeeds with the right answer once the failure stops.",
  ['fault_sequences', 'crash_points', 'histories'],
  'every read-only operation on every format, with a device error, allocation failure or asynchronous interrupt at every possible access or line inside it, then retried',
  'The tests never make a read fail; a handler that swallows an error and reports an element as unspecified passes all of them.',
  [S, T],
  [('errors propagate through get_data_position / elements / fromobject', S), ('no lazily built state except strides', S)],
  ['exception seen by the caller', 'result of the retried operation', 'all arrays after the failure'])

p('C05', 'A failed assignment is contained to its own elements and can be reissued',
  "When a device access or allocation fails, or an interrupt arrives, at any point inside an element or slice assignment, every addressed element holds either its old or its newly assigned value, every other element, the shape and the set of specified elements are unchanged, and all live views agree. The caller sees the failure unless the assignment is complete, and reissuing it after the failure stops completes it.",
  ['fault_sequences', 'crash_points', 'histories'],
  'element and slice assignments through any format or view with a failure at every possible access or line inside them',
  'The tests never interrupt an assignment.',
  [S, T],
  [('Storage.__setitem__ assigns element by element in place', S), ('Buffer.__setitem__', S)],
  ['all arrays and views after the failed assignment, and after reissuing it'])

p('C06', 'An acknowledged assignment is in the backing memory: reopening loses nothing',
  "When the process dies at any point and the arrays are rebuilt by their constructors over the surviving backing memory, every element has the value of the last assignment that returned, and elements addressed by an assignment in flight have their old or new value; index structure is intact. Nothing an assignment reported as done lives only in the objects.",
  ['crash_points', 'histories', 'fault_sequences'],
  'histories of assignments through bases and views over caller-supplied devices with a process death at any device access or line, then reopening and continuing',
  'No test rebuilds an array over memory that an earlier object wrote, so a write-back cache or a rebound buffer passes.',
  [S],
  [('Buffer writes through to caller data in place', S), ('constructors take existing buffers without copying', S)],
  ['reopened arrays', 'contents of the caller-supplied backing memory'])

p('C07', 'Concurrent read operations do not interfere, in any thread schedule',
  "When several threads run read-only operations (element reads, slicing, iteration, copies, conversions, comparisons) on shared or unrelated arrays, every operation returns what it returns alone, in every interleaving. A failure or interrupt in one thread's operation does not change the result of any other thread's.",
  ['schedules', 'fault_sequences'],
  'all interleavings, at line and bytecode granularity, of read-only operations of 2-4 threads, with device errors and interrupts injected into some of them',
  'All tests are single threaded.',
  [S, T],
  [('read paths keep their working state in locals', S), ('solver data passed as arguments', T), ('lazy strides', S)],
  ['result of each operation in each thread'],
  [('_strides', 'lazily computed strides, the only state a read may write', S)])

p('C08', 'Concurrent element accesses are linearizable per element',
  "When several threads read and assign elements and slices through the same array or through views sharing its elements, each element behaves as an atomic register: every value read by an element read, slice copy, iteration or conversion is the initial value or one assigned to that element, consistent with a single order of that element's accesses that respects real time. No assignment to one element undoes or alters a concurrent assignment to another.",
  ['schedules', 'histories'],
  'all interleavings, at line and bytecode granularity, of 2-4 threads each issuing element/slice assignments, reads, copies, iterations and conversions on shared elements',
  'All tests are single threaded; lost updates and torn intermediate values cannot appear in them.',
  [S],
  [('assignment stores single elements in place', S), ('views share one buffer', S)],
  ['invoke/return history of every element access', 'final contents'])

p('C09', 'Element iterators are independent and visit every element exactly once',
  "Iterating an array's elements yields each specified element exactly once with the value it has when it is produced, in the same order however the iteration is suspended. Any number of iterators over the same or related arrays may be advanced in any order, abandoned, or killed by a device failure, interleaved with reads and assignments, without affecting each other or the array.",
  ['schedules', 'histories', 'fault_sequences'],
  'all interleavings of several live iterators with reads, assignments, slicing and conversions, with iterators abandoned at any point and device failures while one advances',
  'Tests exhaust one iterator at a time with list().',
  [S],
  [('elements / indices_and_data_position generators keep state in their frame', S)],
  ['sequence of (index, value) pairs of each iterator', 'all arrays afterwards'])

p('C10', 'Chains of format conversions lose, invent and reorder nothing',
  "However an array is carried through a chain of conversions between formats, dimension mappings, copies and changes of the unspecified value, with assignments in between and failed steps retried, the result has the same shape and denotes exactly the same elements, and its stored indices are in the order its lookups rely on. This includes arrays with no specified elements, empty rows, single-element axes and fully specified arrays.",
  ['histories', 'configurations', 'fault_sequences'],
  'all chains of conversions over all formats, sparsity patterns, shapes, permutations and partitionings, interleaved with assignments, with transient failures inside conversions and retry',
  'Tests convert three fixed 2x3 matrices once; all-unspecified arrays, empty rows, 1-D and 3-D chains, and arrays modified between conversions are not reached.',
  [S, T],
  [('fromobject conversions and their fast paths', S), ('compress_indices', S), ('solve_index in FlatCOO/COO', T), ('promote_index / reduce_index', S)],
  ['every element, elements() and stored entry count of each array in the chain'])

p('C11', 'Arrays touch only their own window of the memory they are given',
  "An array constructed over a window of a larger caller-supplied memory never reads or writes positions outside that window, and an assignment writes only positions of the elements it addresses, in every format and through every in-range slice. This holds at each single memory access, so arrays in neighbouring windows of one memory never disturb one another, even when operations fail midway.",
  ['histories', 'configurations', 'fault_sequences'],
  'all histories of operations on arrays placed in adjacent windows of one device, checked at every device access, with failures injected inside operations',
  'Tests use one list per array; an access outside the window, or a rewrite of a neighbour with its own value, changes nothing they look at.',
  [S],
  [('Buffer offset/size arithmetic', S), ('Strided/DM position arithmetic', S)],
  ['position of every device access', 'guard cells and neighbouring arrays'])

p('C12', 'Every operation makes bounded progress and terminates',
  "Every operation, including iterating an array as a plain Python sequence, finishes within a number of steps bounded by a fixed polynomial in the array's size, for every input, thread schedule and history; once injected failures stop, every pending or retried operation completes. Iterating an array as a sequence produces exactly as many items as its length, and integer indices outside an axis are refused.",
  ['schedules', 'histories', 'fault_sequences'],
  'all operations on all formats under all schedules and after any fault sequence, counted in simulated steps',
  'The tests only show that the sampled calls return; none iterates a storage object as a sequence or counts work.',
  [S, T],
  [('binary searches shrink their interval', S), ('finite dt loop in solve_index', T), ('normalize_index', T)],
  ['number of executed steps per operation', 'items produced by iteration'])

p('C13', 'Inspection never changes arrays and never depends on the output stream',
  "Comparing arrays (==, !=, element-wise equality), printing them (str, repr), and asking for length, shape, size or fullness change no array and no device content, and give the right answer even when the process's output stream is closed, full or broken. Element-wise equality holds exactly when both sides specify the same elements with the same values, over any history.",
  ['fault_sequences', 'histories'],
  'all histories interleaving inspection with assignments, with standard output failing at any write',
  'Tests compare with a working stdout and never look at what a comparison left behind.',
  [S],
  [('Storage.equal / __eq__ / Buffer.__eq__', S), ('__str__/__repr__', S)],
  ['result of the comparison', 'exception raised', 'bytes written to stdout', 'device write log'])

p('C14', 'Assignment from an array takes the values the source had when it began',
  "Assigning a slice from a nested list or from any array, including a view that overlaps the destination, stores in each addressed element the value its counterpart in the source had when the assignment began. If the source cannot be read completely, because it is too small or because one of its reads fails, the destination is left unchanged.",
  ['histories', 'fault_sequences'],
  'slice assignments whose source is a list, an independent array, or an overlapping view in any direction and chain, with failures at each source read',
  'Tests assign from short fresh lists only; overlapping sources and failing sources are never used.',
  [S],
  [('Storage.__setitem__ evaluation order', S), ('get_value', S)],
  ['destination after the assignment, completed or failed'])

p('C15', 'Importing the package never fails, whatever git does',
  "Importing the package and asking for its version information always succeeds and always yields a version string, whether git is absent, not executable, killed, refuses, fails at any one of the commands issued, prints names that are not valid text, prints more than a pipe holds, or takes long. When the version cannot be determined it says so with the documented unknown-version answer.",
  ['fault_sequences', 'configurations', 'crash_points'],
  'every subset and position of git command failures, over all repository states (no repository, no commits, tagged, untagged, dirty, archive keywords)',
  'Tests import once, in one repository with a working git.',
  [V, I],
  [('run_command error handling', V), ('get_versions fallbacks', V), ('git_pieces_from_vcs', V)],
  ['import gcs; gcs.__version__', 'gcs._version.get_versions()'])

p('C16', 'A reported version is the right one for the repository history, or unknown',
  "For every history of commits, version tags, other tags and uncommitted edits, the reported version identifies the revision that is current when it is asked for by nearest version tag, distance, short hash and dirty mark as the configured style and tag prefix spell them, with the full revision id and commit date; exported archives report the tag or revision they were exported from. That is so whatever the asking process is for git (a hook of another repository) and whatever git's configuration adds to the output, and however often a process asks while the history goes on. A failure of any git command never yields a different version, only the right one or the explicit unknown answer (or the directory name, where one is configured).",
  ['histories', 'fault_sequences'],
  'all commit/tag/edit histories and export points, with any git command failing in any of its ways',
  'No test checks the version at all; CI only ever sees one history.',
  [V, Z],
  [('git_pieces_from_vcs / render_pep440', V), ('git_versions_from_keywords', V)],
  ['get_versions() dictionary'])

p('C17', 'Build-time and run-time versions agree, and a recorded version reads back',
  "For every repository history, version configuration and the same git failures, the version computed at build time from the project root equals the one the package computes at run time, and neither crashes. A version recorded into a distribution's version file is reported verbatim by that file when it is imported and when it is read again at build time, with no git at all as well as inside another repository.",
  ['histories', 'fault_sequences', 'configurations'],
  'all repository histories, export keyword states and git failure sequences; all recorded version dictionaries',
  'No test runs the build-time code; it is duplicated in three places that drift apart silently.',
  [V, Z, 'setup.cfg'],
  [('versioneer.get_versions', Z), ('write_to_version_file / versions_from_file', Z), ('_version.py template', Z)],
  ['versioneer.get_versions()', 'get_versions() of the installed and of the recorded _version.py'])

p('C18', 'Recording the version file is all-or-nothing across crashes and disk errors',
  "While the version file of a build or distribution tree is being recorded, a process death, failed system call or full disk at any point leaves at that path either the complete old file or the complete new one, and a reported success means the new one is there. When several builds record at the same time, the file is at every moment the complete old one or that of one of them, and none fails because of the others. A source file sharing the old file's storage (hard link) is never altered.",
  ['crash_points', 'fault_sequences', 'schedules'],
  'a crash, I/O error or short write at every system call of the recording, with the old file hard-linked or not, then recording again; any interleaving of the system calls of several recordings',
  'No test records a version file; unit tests cannot stop the process between two system calls.',
  [Z],
  [('write_to_version_file', Z)],
  ['directory contents after the crash', 'the hard-linked source file'])

p('C19', 'The version-support installer converges after any crash and keeps user content',
  "Running the version-support installer leaves the package initialiser, manifest, attributes file and version module with every entry they need exactly once and all content the user had, line by line, and marks all it touched for the next git commit; running it again changes nothing. If a run dies, or a file operation or git fails at any point, running it again reaches that same state. It reports success only when the files are complete, and an error exactly when the configuration or setup.py lacks something it needs.",
  ['crash_points', 'fault_sequences', 'histories', 'configurations'],
  'all prior contents of the files involved, any number of interrupted runs with a failure at any file operation, then a complete run',
  'The installer has no tests, and was last run by hand once.',
  [Z],
  [('do_setup', Z), ('do_vcs_install', Z), ('scan_setup_py', Z)],
  ['contents of __init__.py, MANIFEST.in, .gitattributes, _version.py after the runs, what git add was given, the exit status'])

pure = 'A pure function of its arguments: '
p('C20', 'Dimensionality reduction and promotion are inverse bijections',
  "For every shape, permutation of dimensions and partitioning, reducing an in-range index and promoting the result gives the index back, and distinct indices reduce to distinct in-range reduced indices, in the documented layout.",
  ['inputs'], 'all shapes, permutations, partitionings and indices',
  'Tests enumerate a few small shapes; the claim is for all.',
  ['gcs_basics.py', S], [('create_reduction_metadata / reduction / promotion', 'gcs_basics.py'), ('make_reduction / reduce_index / promote_index', S)], ['returned tuples'])
p('C21', 'Slice reduction agrees with Python slicing for every slice and size',
  "For every slice and sequence length, the reduced slice selects the same items as the original slice does from a Python list, and the reported item count is the number selected.",
  ['inputs'], 'all slices and sizes', 'Tests enumerate sizes 1-9 only.', [T], [('reduced / nitems', T)], ['returned slice and count'])
p('C22', 'The Diophantine solver returns the unique in-range index or none',
  "For every strided layout reached by slicing a contiguous array, the solver returns the index of a position when the position belongs to the slice and no index otherwise; and the general solver's family contains only solutions.",
  ['inputs'], 'all shapes, slices and positions', 'Tests sample a few shapes with one or two sliced axes.', [T], [('init_diophantine / solve_index / diophantine', T)], ['returned index'])
p('C23', 'Row compression and decompression are inverse on sorted indices',
  "For every sorted sequence of row indices and row count, compressing gives the cumulative row pointers and decompressing gives the sequence back; the two published implementations agree.",
  ['inputs'], 'all sorted index sequences and sizes', 'Tests list nine examples.', ['gcs_basics.py', S], [('compress_indices / uncompress_indices', S)], ['returned lists'])
p('C24', 'Documented layouts: each mapping places elements as the introduction shows',
  "Building a dimensions-mapped array with given dimensions and partitioning produces the storage array, in each format, that the introduction document derives for it.",
  ['inputs', 'configurations'], 'all shapes and mappings', 'Document examples are printed, not compared.', [S, 'GentleIntroductionToGCS.md'], [('DM.fromobject', S)], ['storage array contents'])
p('C25', 'An executable build gives the version module back, whatever happens',
  "While an executable is built (cx_Freeze, py2exe) the source tree's version module is the complete recorded version; afterwards it is exactly what it was before, whether the build succeeded, failed or was interrupted, and a failure is reported, never hidden. If the process dies, or an operation on the module itself fails, at any point, the module is either the complete original or a complete recorded one, never anything else.",
  ['crash_points', 'fault_sequences', 'histories', 'configurations'],
  'sequences of builds that succeed, fail, exit, are interrupted, change directory or kill the process, with a failure at any file operation of the build command',
  'Neither builder is installed anywhere the tests run; no test runs these commands.',
  [Z],
  [('get_cmdclass: build_exe, py2exe', Z), ('write_to_version_file', Z)],
  ['contents of the version module during and after the build, the error reported'])

p('C26', 'Asking for the version leaves no trace',
  "Importing the package, and asking for its version at run time or at build time, changes nothing else, whatever git does: it prints nothing and leaves the working directory, environment, module search path, standard streams, signal handlers, temporary directory, every file of the tree and the repository as they were; every process it started has ended and been waited for, and no descriptor stays open. The answer belongs to the caller: changing it does not change later answers.",
  ['fault_sequences', 'configurations', 'histories'],
  'every subset and position of git command failures and lies, over all repository states, with a look at the surroundings before and after each question',
  'Tests import once, with a working git, and do not look at the process they run in.',
  [V, I, Z],
  [('run_command', V), ('get_versions', V), ('git_get_keywords', V), ('get_versions, get_version', Z)],
  ['working directory, environment, descriptors, processes, files and output before and after each question'])

p('C27', 'Threads that ask for the version at the same time do not interfere',
  "When several threads of one process ask for version information at the same time, through the imported version module, other loads of it, or version modules of other projects, each gets in every interleaving exactly the answer it gets alone, whatever git does to it or to the others, and no thread waits for ever. At no moment while a thread asks is the working directory, environment, search path or a standard stream of the process changed, which other threads would see.",
  ['schedules', 'fault_sequences', 'histories'],
  'all interleavings of 2 to 4 threads asking about one or two projects, with any git command of each failing, lying or taking long',
  'Tests ask in one thread, once.',
  [V],
  [('get_versions', V), ('run_command', V), ('git_pieces_from_vcs', V), ('HANDLERS', V)],
  ['answers of get_versions() in each thread, state of the process while they ask'])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open('properties.jsonl', 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
import sys
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
