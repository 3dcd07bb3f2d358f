"""Which simulated workloads decide which property.

`runs` is the number of runs per stream for the 25 s quick budget; other
budgets scale it.  `oracle` goes into MANIFEST.json.
"""

REAL = ['liboclgrind (core, plugins): interpreter, memory, queues, plugins - built from /repo with memory-access instrumentation',
        'liboclgrind-rt (OpenCL runtime API) where the workload uses the API',
        'LLVM/Clang front end (outside the simulation window)', 'libstdc++, libc']
STUB = ['thread scheduler (every context switch decided by the simulator)', 'clocks', 'heap inside the window (fixed-address arena)']
ASSUME = ['sequentially consistent memory: the simulator interleaves instrumented accesses of real threads one at a time; '
          'weak-memory reorderings are not simulated',
          'seeded sampling: a clean batch is evidence, not proof']

K = 'kern'
Q = 'queue'
MODEL = 'comparison with an executable reference model'
PROPS = {
    'C01': dict(streams=[dict(spec=K, mode='model', runs=700), dict(spec='lang', mode='', runs=1000)], oracle=MODEL + ' of the kernel language',
                rule='Random ND-range (1-3 dims, offsets, remainder groups), random race-free program per work-item '
                     '(local/global/private/constant accesses, calls, vectors, barriers, async copies, commutative '
                     'atomics), 1-6 workers, random schedule; every run executes a kernel and is compared with the '
                     'reference executor. Second stream: a random OpenCL C kernel (all integer widths, float/double, vectors, '
                     'structs, arrays, pointers, loops, switches, functions, conversions, integer built-ins) compiled with '
                     'random options, compared with an evaluator of the generated program.'),
    'C02': dict(streams=[dict(spec=K, mode='atomics', runs=1800)], oracle='linearizability of the recorded history',
                rule='2-8 work-groups issue random 32/64-bit atomics to 1-3 shared cells; every returned value is '
                     'checked for an explaining total order.'),
    'C03': dict(streams=[dict(spec=K, mode='ids', runs=1600)], oracle='exactly-once and id invariants over the observed history',
                rule='Random ND-range, workers and schedule; every id query of every work-item and every plugin '
                     'callback is checked.'),
    'C04': dict(streams=[dict(spec=K, mode='barrier', runs=2000)], oracle=MODEL + ' plus the exact set of divergent groups',
                rule='Random mix of conforming groups (checked against the reference) and groups whose items skip or '
                     'swap barriers.'),
    'C05': dict(streams=[dict(spec='async', mode='', runs=900), dict(spec=K, mode='async', runs=400)], oracle=MODEL,
                rule='Random async copies of 22 element types in either direction, with strides, 0 to 80 elements, up to '
                     'four outstanding events, chained events and waits on lists; in some groups some items disagree '
                     'about an argument, the place, the copies or the wait, or the wait is missing.'),
    'C06': dict(streams=[dict(spec='race', mode='', runs=1500), dict(spec='race:strict', mode='', runs=600)],
                oracle='happens-before model of the accesses versus the reported races',
                rule='Random programs of stores, loads, atomics, async copies and barriers over a few shared cells; every '
                     'report must name a real race (entities, lines, kind, address) and every racy byte must be reported.'),
    'C07': dict(streams=[dict(spec='mem', mode='', runs=1500)], oracle=MODEL + ' of memory, bounds and flags',
                rule='Random valid and invalid accesses over buffers of every kind, sub-regions, maps; exact multiset of '
                     'diagnostics per work-item, and all memory and guard bytes compared.'),
    'C10': dict(streams=[dict(spec=K + ':count', mode='count', runs=1600)], oracle='conservation: printed counts equal observed executions',
                rule='Random programs under the instruction counter, several workers; the printed table is compared '
                     'with a count of the executed-instruction callbacks.'),
    'C13': dict(streams=[dict(spec=K, mode='printf', runs=900), dict(spec='printf', mode='', runs=550)],
                oracle='exactly-once and ordering over the captured output, and a model of printf formatting',
                rule='Random printf programs on several workers; stdout is parsed line by line. Second stream: random format '
                     'strings (every conversion, flag, width, precision, length modifier, vector size) with random values, '
                     'compared with the text the OpenCL C specification prescribes.'),
    'C14': dict(streams=[dict(spec=Q, mode='order', runs=8000), dict(spec=Q, mode='status', runs=2000),
                         dict(spec=Q, mode='xfer', runs=1500)],
                oracle='happens-before model of the recorded history, bounded liveness',
                rule='Random histories of commands on 1-3 queues, user events set by the main or helper threads.'),
    'C15': dict(streams=[dict(spec=Q, mode='status', runs=8500), dict(spec=Q, mode='order', runs=2500)],
                oracle='event automaton, exactly-once callbacks and error propagation model', faults=['failing user events'],
                rule='Random histories with failing user events and callbacks registered at any point.'),
    'C16': dict(streams=[dict(spec=Q, mode='xfer', runs=12000), dict(spec=Q, mode='order', runs=1500)], oracle=MODEL + ' of memory',
                rule='Random histories of buffer commands with conflicting commands ordered by events.'),
    'C17': dict(streams=[dict(spec=Q, mode='image', runs=30000)], oracle=MODEL + ' of memory',
                rule='Random histories of image commands with conflicting commands ordered by events.'),
    'C18': dict(streams=[dict(spec='life', mode='api', runs=11000)],
                oracle='expected error, notification and unchanged model state after every invalid call',
                rule='Random histories of valid API calls in which about 40% of the calls are invalid (about 190 kinds '
                     'over all API families); runs are repeated in the same process to find leaks.'),
    'C19': dict(streams=[dict(spec='life', mode='', runs=9000), dict(spec=Q, mode='order', runs=1500)],
                oracle='reference-count model, exactly-once destructor callbacks, leak and use-after-free detection',
                rule='Random histories over every object kind with user events and pending commands; the history runs '
                     'twice in one process and the second run must leave the heap as it found it.'),
    'C20': dict(streams=[dict(spec='life', mode='oom', runs=12000)],
                oracle='model state, error codes and fatal-error reports under injected allocation failures',
                faults=['failing allocations'],
                rule='Random API histories in which allocations of 64 KiB or more (buffer and image contents, local and '
                     'private memory of kernels) fail with probability 0.3.'),
    'C21': dict(streams=[dict(spec=Q, mode='prof', runs=10000)], oracle='timestamp ordering under injected clock jumps',
                faults=['wall clock jumps'],
                rule='Random histories; each wall-clock read may jump by up to hours in either direction.'),
    'C22': dict(streams=[dict(spec='hosts', mode='', runs=2200), dict(spec='hosts:tools', mode='', runs=600)],
                oracle=MODEL + ' of every host thread alone',
                rule='Two or three host threads run random scripts (buffer commands, kernels with barriers, atomics, printf '
                     'and invalid accesses, user events, rejected calls), each on its own context; second stream with the '
                     'race detector on.'),
    'C23': dict(streams=[dict(spec=Q, mode='args', runs=3000), dict(spec=Q, mode='order', runs=2500)], oracle=MODEL + ' of memory',
                rule='Random histories in which kernel arguments, patterns and argument memory are overwritten right '
                     'after each enqueue.'),
    'C25': dict(streams=[dict(spec='sim', mode='', runs=800)],
                oracle='executable model of the simulation file format and of the kernel',
                faults=['read errors', 'short reads', 'EINTR', 'open failures'],
                rule='Random simulation files (kernel as source or bitcode, one to five arguments of every kind and type, '
                     'random layout and comments); half are malformed in one of 28 ways; reads of a third of them fail, '
                     'come up short or are interrupted.'),
    'C28': dict(streams=[dict(spec='image', mode="", runs=4000)],
                oracle='executable model of images, formats, samplers and filtering',
                rule='One to four random images (type, size, format) and up to a dozen operations: kernels reading with '
                     'every kind of sampler and coordinates in and around the image, writing, copying and querying, host '
                     'transfers; gated by user events, arguments replaced or released right after the enqueue; one to '
                     'four workers.'),
    'C11': dict(streams=[dict(spec='log', mode="", runs=1100),
                         dict(spec='log:faults', mode="", runs=500)],
                faults=['short writes', 'EINTR', 'EIO', 'full disk', 'open failures'],
                oracle='multiset and per-entity order of the messages that the committed errors must cause, whole and '
                       'with kernel, entity, address and source position',
                rule='One or two host threads with a context each enqueue up to three random NDRanges whose work-items '
                     'commit up to four of 13 kinds of errors each, work-groups up to two more; limits of 1 to 1000 messages; '
                     'to stderr, a log file, or one that cannot be opened; one to four workers; writes that come up '
                     'short, are interrupted or fail.'),
    'C08': dict(streams=[dict(spec='uninit', mode="", runs=900),
                         dict(spec='uninit:opt', mode="", runs=500)],
                oracle='interpreter of the generated program that tracks for every byte whether it is defined, undefined or '
                       'neither certainly',
                rule='Random kernels and functions (scalars, vectors, arrays, structs, pointers, control flow, atomics, '
                     'vload/vstore, shuffles, async copies, two-result builtins, images) over global, local and private memory '
                     'of which a random history of host commands has defined a part; up to three launches, some by '
                     'a second host thread; one to four workers. Optimised builds of the same with nothing undefined.'),
    'C24': dict(streams=[dict(spec='debug', mode="", runs=4500)],
                faults=['interrupts'],
                oracle='evaluator of the generated program, and a model of the debugger over the recorded execution',
                rule='Random programs of one to four functions (loops, branches, structs, arrays, vectors, local memory and a '
                     'barrier, some with an invalid write), one or two launches with offsets and remainder groups, up to 60 random '
                     'commands with valid and invalid arguments, up to three interrupts at random points.'),
    'C26': dict(streams=[dict(spec='build', mode="", runs=750),
                         dict(spec='build:faults', mode="", runs=400)],
                faults=['short writes', 'EINTR', 'EIO', 'full disk', 'open failures'],
                oracle='evaluator of the generated translation units',
                rule='One to four random units and up to three headers; executables made of them by building everything '
                     'at once or by compiling and linking in random order, through libraries and saved binaries; damaged '
                     'binaries, failing builds and links in between; 1 to 3 workers run the kernels. Second stream: dumps '
                     'of the code to a disk that is full or failing, or a precompiled header that cannot be read.'),
    'C30': dict(streams=[dict(spec='launch', mode='cmd', runs=12000), dict(spec='launch', mode='app', runs=900)],
                faults=['readlink failures', 'realpath failures', 'exec failures'],
                oracle='model of the command line and of each setting',
                rule='Random command lines (options in every spelling, values, repeats, errors), environments and installation '
                     'paths, with failing system calls, over a stack full of rubbish; what is executed is compared with the '
                     'model. Second stream: the harness plays the application in the environment it was given: device '
                     'properties, launches at the limits, and a kernel whose errors, races, undefined data, threads and '
                     'instruction counts must be reported exactly if asked for; invalid numbers must be refused.'),
    'C31': dict(streams=[dict(spec='reflect', mode="", runs=420)],
                oracle='the generated declarations, and an evaluator of the digest that each kernel computes',
                rule='One to three random kernels with up to nine arguments of every kind (scalars, vectors, nested '
                     'structures, typedefs, pointers with qualifiers, local memory, images, samplers), attributes and local '
                     'arrays; histories of creating, cloning and reloading kernels, setting and refusing values, queries, '
                     'and launches that wait for an event while values change; one to five workers.'),
}
