prop('C06', 'The race detector reports every data race and nothing else',
     'With data race detection on, a kernel run reports a race at a byte of global or local memory exactly when two '
     'different entities (work-items, or a group doing an async copy) access it without being ordered by a barrier of '
     'their group with the right fence, at least one storing, not both atomically, and - unless uniform writes are '
     'disallowed - not merely storing the same value. Race-free kernels give no report. Each report names the address, '
     'the kind, both real entities and their instructions. None of this depends on worker count or schedule.',
     ['schedules', 'programs', 'configurations'],
     'all programs of stores, loads, atomics, async copies and barriers with either fence x ND-ranges with offsets x worker counts x schedules',
     'The race tests are fixed kernels of one or two groups run once; reports depend on which worker merges a group first.',
     ['src/plugins/RaceDetector.cpp', 'src/core/WorkGroup.cpp', 'src/core/Context.cpp'],
     [('per-item access maps merged at barriers', 'src/plugins/RaceDetector.cpp'),
      ('per-buffer access records shared by all workers under a bank of mutexes', 'src/plugins/RaceDetector.cpp')],
     [('m_globalAccesses', 'accesses of the finished groups of the running kernel', 'src/plugins/RaceDetector.h')],
     ['logged races'])
prop('C07', 'The memory checker reports every invalid access exactly once, and nothing else',
     'With the memory checker on, every load, store or atomic outside its allocation (global, constant, local or private), '
     'every write to a read-only and read of a write-only buffer, and every kernel access to a mapped region is reported '
     'once, against the right work-item, and valid accesses are never reported, whatever the schedule. An invalid access '
     'never changes memory other than its target, never corrupts host memory, and execution continues.',
     ['programs', 'schedules', 'histories'],
     'all mixes of valid and invalid accesses of every kind, size and address space x buffers, sub-regions and maps x worker counts x schedules',
     'Each diagnostic has one fixed kernel; nobody checks that surrounding memory stays intact or that valid accesses at the edges are silent.',
     ['src/plugins/MemCheck.cpp', 'src/core/Memory.cpp', 'src/core/Context.cpp', 'src/core/WorkItemBuiltins.cpp'],
     [('bounds, flags and mapped-region checks on memory events', 'src/plugins/MemCheck.cpp'),
      ('bounds checks of the memory itself', 'src/core/Memory.cpp')],
     [('m_mappedRegions', 'regions currently mapped by the host', 'src/plugins/MemCheck.h')],
     ['logged errors', 'buffer contents', 'simulated heap'])
prop('C18', 'A rejected API call reports its error and changes nothing',
     'An API call with an invalid object, size, region, wait list, flag, name or state returns the error code OpenCL '
     'defines for it, returns no object, pointer or event, writes nothing to the caller\'s memory, invokes the notify '
     'callback of the context concerned exactly once (and of no other), and with OCLGRIND_CHECK_API is reported once by '
     'function and error name. At any point of a history - commands pending, objects partly released - a rejected call '
     'leaves every object, reference count, pending command and memory content as it was, and leaks nothing.',
     ['inputs', 'histories', 'schedules'],
     'all histories of valid calls x invalid calls of every API family at any point',
     'Tests make a handful of fixed invalid calls on an otherwise idle runtime and never look at what they leave behind.',
     [R], [('parameter checks and error macros', R)], [], ['returned codes', 'context notify callbacks', 'simulated heap'])
prop('C19', 'Objects live exactly as long as something refers to them',
     'For every order of retains and releases of contexts, queues, buffers, sub-buffers, images, samplers, programs, '
     'kernels and events, an object stays fully usable while the application, another object or a pending command '
     'refers to it, and is destroyed when the last reference goes: destructor callbacks then run exactly once, in '
     'reverse order, on the right object; nothing is used after it was freed, freed twice or leaked. Info queries '
     'report the current state, including reference counts.',
     ['histories', 'schedules'],
     'all histories of creating, cloning, retaining, releasing, using and querying objects with commands pending x schedules',
     'Tests create objects in order, use them and release them once at the end; leaks and early frees need rare orders.',
     [R, 'src/runtime/async_queue.cpp', 'src/core/Memory.cpp', 'src/core/Kernel.cpp'],
     [('reference counts', 'src/runtime/icd.h, ' + R), ('objects retained by pending commands', 'src/runtime/async_queue.cpp')],
     [], ['destructor callbacks', 'simulated heap (use after free, leaks)', 'info queries'])
prop('C20', 'Failing allocations of large memory are reported and change nothing else',
     'When the memory for a buffer or image cannot be allocated, creation fails with '
     'CL_MEM_OBJECT_ALLOCATION_FAILURE, returns no object and leaves nothing behind. When the local or private '
     'memory of a running kernel cannot be allocated, a fatal error is reported on stderr and that kernel stops. In '
     'both cases the process survives, all other objects keep their contents, and later calls and kernels work.',
     ['faults', 'histories'],
     'all subsets of failing large allocations (64 KiB and more) x histories of API calls and kernels',
     'No test makes an allocation fail.',
     ['src/core/Memory.cpp', 'src/core/WorkGroup.cpp', 'src/core/WorkItem.cpp', R],
     [('allocation of buffers', 'src/core/Memory.cpp'), ('local memory of groups', 'src/core/WorkGroup.cpp')],
     [], ['returned codes', 'stderr', 'buffer contents', 'simulated heap'])
prop('C28', 'Kernels see images exactly as the image model defines',
     'For every image type (1D, 2D, 3D, arrays, 1D from a buffer), supported format and size, a kernel\'s read_image '
     'returns what OpenCL defines for the coordinates and the sampler (addressing mode, normalised or not, nearest or '
     'linear; argument, constant or none) - border colours, channel order, missing channels and conversions included - '
     'write_image stores the converted colour in that pixel and nowhere else, and the query functions return the '
     'image\'s properties. This holds for the contents left by the commands before it (kernels, host transfers) and for '
     'the image and sampler that were set when the kernel was enqueued, although they may be replaced or released '
     'before it runs, with any number of workers and any schedule.',
     ['inputs', 'histories', 'schedules'],
     'all images x samplers x coordinates x histories of kernels and host transfers x worker counts x schedules',
     'The image tests read a few fixed 2D images with one or two samplers and formats.',
     ['src/core/WorkItemBuiltins.cpp', 'src/core/Kernel.cpp', R],
     [('image built-ins', 'src/core/WorkItemBuiltins.cpp'), ('image and sampler arguments', 'src/core/Kernel.cpp, ' + R)],
     [('imageArgs', 'image descriptions of a kernel, shared with enqueued copies', 'src/runtime/icd.h')],
     ['results of kernels', 'image contents'])

prop('C11', 'Diagnostics are complete, whole, attributed and limited',
     'Every error that work-items and work-groups commit (invalid reads and writes in global, local and private memory, '
     'static array bounds, read-only and write-only buffers, unaligned accesses, divergent barriers, asynchronous '
     'copies out of bounds) is reported by exactly one message that names the kernel, the entity with its global, local '
     'and group IDs, the address and size where there is one, and the file, line, column and text of the source line. The '
     'messages are written whole, one after the other, each entity\'s in program order, to stderr or, with OCLGRIND_LOG, '
     'only to that file, where they are when the command has completed; if the file cannot be opened a diagnostic says so and they '
     'go to stderr. Of the errors of a process the first OCLGRIND_MAX_ERRORS (default 1000) are written, followed by '
     'exactly one line about the suppression if there are more, and nothing else. This holds for any number of workers, '
     'contexts and host threads and any schedule, and with short and interrupted writes; when writing fails, the kernels '
     'still compute what they would.',
     ['inputs', 'schedules', 'faults'],
     'all sequences of errors of all work-items x limits x log destinations x contexts x worker counts x schedules x write faults',
     'The tests compare the messages of a single error or two, normally of one work-item.',
     ['src/plugins/Logger.cpp', 'src/core/Context.cpp', 'src/plugins/MemCheck.cpp', 'src/core/WorkGroup.cpp'],
     [('limit, destination and locking', 'src/plugins/Logger.cpp'), ('message text and attribution', 'src/core/Context.cpp')])

prop('C08', 'The uninitialised-data checker reports uses of undefined data and no others',
     'With uninitialised-data checking on, a byte is undefined that nothing has written since its allocation (buffers '
     'created without host data, local memory, private variables) or that was computed from undefined bytes. A work-item '
     'that stores undefined data to global or local memory, branches on it, or uses it as an address or vector index is '
     'reported with the kernel, the work-item and its line; a line of a work-item that handles defined data only, or just '
     'copies undefined data within private memory, is not. Writes, fills, maps, copies and host pointers define exactly '
     'their bytes, also when an address is reused. Results are those without the checker. This holds for '
     'scalars, vectors, structs, arrays, functions, built-ins and image arguments, any number of workers, launching thread and schedule, in '
     'unoptimised builds; in optimised ones a kernel without structs or 3-component vectors that uses no undefined data is not '
     'reported.',
     ['programs', 'histories', 'schedules'],
     'all programs x definedness of every byte of their memory x histories of host commands x worker counts x schedules',
     'Each test is one kernel with one undefined variable and one work-item.',
     ['src/plugins/Uninitialized.cpp', 'src/core/Program.cpp', R],
     [('shadow values and shadow memory of the three address spaces', 'src/plugins/Uninitialized.cpp')],
     [('m_workSpace', 'shadow memory of the work-items and groups of a worker', 'src/plugins/Uninitialized.h')],
     ['logged messages', 'buffer contents'])

prop('C24', 'The interactive debugger shows the truth and changes nothing',
     'With OCLGRIND_INTERACTIVE a kernel computes what it computes without, whatever commands are given and whichever '
     'work-items are switched to, also if the input ends early. The debugger stops where its commands say: `step` at the '
     'next source line of the current work-item (or when it reaches a barrier or its end), `next` not within functions called from '
     'the current line, `continue` not before a line with a breakpoint, an error or an interrupt; a breakpoint is hit each time a work-item '
     'reaches its line and names the breakpoint, line and global ID. What is printed is right at that moment: source lines, function '
     'and arguments, call stack, values of variables, array elements and structure members of the current function, contents of '
     'global memory, breakpoints, NDRange and work-item. `workitem` takes the global ID (with the offset), resumes exactly that '
     'work-item and refuses those of finished work-groups. Commands or arguments that are not valid are answered and change nothing. '
     "Interrupts (SIGINT) stop at the prompt if the kernel has been continued; otherwise and afterwards they go to the application's "
     'own handler.',
     ['programs', 'commands', 'interrupts'],
     'all programs x sequences of debugger commands x points at which interrupts arrive',
     'The tests have a few fixed scripts for one work-item, without functions, barriers, switching or interrupts.',
     ['src/plugins/InteractiveDebugger.cpp', 'src/core/WorkItem.cpp', 'src/core/KernelInvocation.cpp'],
     [('commands, prompts, breakpoints', 'src/plugins/InteractiveDebugger.cpp'), ('values of variables', 'src/core/WorkItem.cpp'),
      ('switching of work-items', 'src/core/KernelInvocation.cpp')],
     [('m_breakpoints', 'line of every breakpoint of a program', 'src/plugins/InteractiveDebugger.h')],
     ['standard output', 'results of kernels', 'signal handler'])
prop('C26', 'A program means the same however it is built, linked, saved and reloaded',
     'A kernel computes what its source says under the build options given, whether the source arrives whole or in '
     'pieces, is built in one go or compiled with headers and linked in any order, through libraries, through binaries saved '
     'and loaded again (also in another context, after the original is gone), or is built again with other options. '
     'Options may be spelled in every way OpenCL allows (quotes, escapes, spaces, -D and -U; -w and -Werror; those in '
     'OCLGRIND_BUILD_OPTIONS are added). Program-scope variables belong to one program and keep their values between its '
     'launches. Source, options, build status, log, binary type, binary size and kernel names reported are those of the last '
     'build, and the callback is called once, whether it succeeds or not. What cannot be built, linked (a symbol defined '
     'twice) or loaded (a truncated or overwritten binary) is rejected with the error OpenCL prescribes, a build error is '
     'described in the log, and the application and all other programs go on. Files of OCLGRIND_DUMP_SPIR that cannot be '
     'written change nothing, and a precompiled header that cannot be read at most makes a build fail.',
     ['programs', 'histories', 'faults'],
     'all sets of translation units, headers and options x ways to build, link, save and load them x failures in between',
     'The tests build every kernel once, from one source with fixed options.',
     ['src/core/Program.cpp', R],
     [('building, options, headers, linking, binaries', 'src/core/Program.cpp'), ('API and callbacks', R)],
     [('m_programScopeVars', 'storage of the program-scope variables of one program', 'src/core/Program.h')],
     ['returned codes', 'program and build information', 'results of kernels', 'callbacks'])
prop('C30', 'oclgrind starts the application with exactly the settings asked for',
     '`oclgrind [OPTIONS] COMMAND [ARGS]` executes COMMAND with exactly ARGS, which it does not interpret, in an unchanged '
     'environment but for the variables of the options given (the last one counts; an option takes precedence over an '
     'inherited variable) and the runtime of its own installation in front of LD_PRELOAD and LD_LIBRARY_PATH, wherever it '
     'is installed and whatever memory contains. --help and --version print and end with status 0; an unknown option, a missing '
     'argument, no command, an installation that cannot be found and a command that cannot be executed are reported, '
     'end with status 1 and start nothing. In the application, the memory sizes, work-group size and compute units '
     'are those given (also beyond 4 GiB), and launches beyond the work-group size, local or constant memory '
     'are refused with the error OpenCL prescribes, those within are not. A number that is not a positive decimal number '
     'is refused with a message naming the variable. --quick runs the first and last work-group, --num-threads limits the '
     'threads, and --check-api, --data-races, --uniform-writes, --uninitialized, --inst-counts, --log, '
     '--max-errors, --plugins and --build-options have their effect exactly if given (a variable other than 1 does not switch '
     'anything on); a plugin that cannot be loaded is reported and does not prevent the others.',
     ['command lines', 'environments', 'faults'],
     'all command lines x environments x installation paths x failing system calls',
     'The tests start two applications with two fixed command lines and set few variables to one value each.',
     ['src/runtime/oclgrind.cpp', 'src/core/common.cpp', R],
     [('command line', 'src/runtime/oclgrind.cpp'), ('numbers', 'src/core/common.cpp'), ('device limits', R), ('plugins', 'src/core/Context.cpp')],
     [('m_device', 'sizes and limits of the device', R)],
     ['executed command, arguments and environment', 'exit status', 'device information', 'messages'])

prop('C31', 'A kernel is what its source declares, and its arguments arrive as they were set',
     'For every kernel signature, the name, the number of arguments, for each argument its name, type, address space, '
     'access and type qualifiers, the attributes (sizes required or hinted at, vector type hint), the required work-group '
     'size and the local memory used (local arrays plus the local arguments set) are reported as the source '
     'declares them; queries report their size, fill in exactly that much and refuse too small a buffer. The same holds for kernels '
     'created one by one or all at once, cloned, or reloaded from a binary, under any build options. '
     'Every launch sees, in every work-item, exactly the values its kernel object had when it was enqueued, '
     'whatever their type (scalars, vectors, structures, buffers, NULL, local memory, images, samplers), order and number, '
     'and whatever is set afterwards; a clone starts with the values of its original and is independent of it. A '
     'value of the wrong size is refused and changes nothing; a launch with an argument missing or another work-group size than the required '
     'one is refused.',
     ['programs', 'histories', 'schedules'],
     'all kernel signatures x attributes x histories of setting, cloning and launching',
     'The tests query no attributes and a handful of arguments, and pass a few types of arguments.',
     ['src/core/Kernel.cpp', R],
     [('reflection', 'src/core/Kernel.cpp'), ('arguments', R), ('kernel queries', R)],
     [('m_values', 'the argument values of a kernel', 'src/core/Kernel.cpp')],
     ['results of queries', 'digests computed by work-items', 'return codes'])
