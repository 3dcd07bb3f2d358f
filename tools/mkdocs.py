#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

R = 'src/runtime/runtime.cpp'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               hook_needed=None)))


prop('C01', 'Race-free kernels give their defined result on any number of workers',
     'A kernel without data races produces, for every ND-range (1 to 3 dimensions, global offsets, work-group sizes that '
     'do or do not divide the global size), exactly the memory contents that executing its work-items by the OpenCL '
     'rules defines: operators, conversions, control flow, calls, scalars, vectors, structs and arrays in all address '
     'spaces, and integer built-ins, at every optimisation level. The result does not depend on how many worker threads '
     'execute work-groups, on how they interleave, or on the order in which groups and work-items are picked. Running the kernel never corrupts host memory, never '
     'deadlocks and always finishes.',
     ['schedules', 'programs', 'configurations'],
     'all race-free kernels x ND-ranges x 1..6 workers x all interleavings of the workers at memory-access granularity',
     'The app and kernel tests run each kernel once under the schedule the host happens to choose; nearly all of them '
     'execute a handful of tiny groups, so two workers are rarely inside shared code together.',
     ['src/core/KernelInvocation.cpp', 'src/core/WorkGroup.cpp', 'src/core/WorkItem.cpp', 'src/core/Memory.cpp',
      'src/core/Kernel.cpp', 'src/core/Context.cpp'],
     [('next work-group handed out by an atomic index', 'src/core/KernelInvocation.cpp'),
      ('per-worker state (current group/item, pools)', 'src/core/KernelInvocation.cpp, src/core/WorkItem.h'),
      ('shared InterpreterCache filled before the run', 'src/core/Program.cpp, src/core/WorkItem.cpp'),
      ('global memory addressed by buffer id + offset', 'src/core/Memory.cpp')],
     [('nextGroupIndex', 'index of the next group to execute', 'src/core/KernelInvocation.cpp')],
     ['buffer contents after the kernel', 'process memory (simulated heap)'])
prop('C02', 'Atomic operations are atomic and linearizable across workers',
     'Concurrent OpenCL atomic operations of work-items on the same 32- or 64-bit global or local location behave as if '
     'executed one after another: every returned old value and the final value are explained by some total order of the '
     'operations that respects the program order of each work-item. Operations on different locations do not disturb '
     'each other or neighbouring bytes.',
     ['schedules', 'programs'],
     'all mixes of atomic add/sub/inc/dec/min/max/and/or/xor/xchg/cmpxchg, 32 and 64 bit, signed and unsigned, x all worker interleavings',
     'Tests use one commutative counter and compare the sum only; losing an update needs two workers inside the same '
     'read-modify-write.',
     ['src/core/Memory.cpp', 'src/core/WorkItem.cpp', 'src/core/WorkItemBuiltins.cpp'],
     [('striped atomic mutexes', 'src/core/Memory.cpp'), ('atomic builtins and LLVM atomicrmw/cmpxchg', 'src/core/WorkItemBuiltins.cpp, src/core/WorkItem.cpp')],
     [], ['returned old values', 'final memory'])
prop('C03', 'Every work-group and work-item runs exactly once with the right ids',
     'For every ND-range each work-item executes the kernel exactly once, and its id, size, offset and group queries '
     'return the values OpenCL defines, including for remainder work-groups. Plugins see a well-formed history: '
     'kernel begin and end once, each work-group begun and completed once, each work-item begun and completed once '
     'inside its group, with all work inside the kernel, and their linear indices follow the ids.',
     ['schedules', 'inputs', 'configurations'],
     'all 1-3 dimensional ND-ranges with offsets and non-uniform groups x worker counts x schedules',
     'The tests cover a few fixed ND-ranges; duplication or loss of a group depends on when workers fetch the next index.',
     ['src/core/KernelInvocation.cpp', 'src/core/WorkGroup.cpp', 'src/core/WorkItem.cpp', 'src/core/WorkItemBuiltins.cpp', 'src/core/Context.cpp'],
     [('group index dispenser', 'src/core/KernelInvocation.cpp'), ('id computation', 'src/core/WorkItem.cpp, src/core/WorkItemBuiltins.cpp'),
      ('notify* fan-out', 'src/core/Context.cpp')],
     [], ['get_* builtins', 'plugin callbacks'])
prop('C04', 'Barriers synchronise a work-group, and divergence is always diagnosed',
     'When all work-items of a group execute the same barriers, everything they wrote before a barrier is visible to all '
     'of them after it and no work-item passes it early. When some items of a group skip a barrier, wait at a '
     'different one or pass different fence flags, that group - and only such a group - is reported as divergent, and all other groups still run to '
     'completion with correct results.',
     ['schedules', 'programs'],
     'all mixes of conforming and diverging groups, barriers in loops, branches and called functions x schedules',
     'Tests have one divergent kernel each, always with a single group diverging the same way.',
     ['src/core/WorkGroup.cpp', 'src/core/KernelInvocation.cpp', 'src/core/WorkItemBuiltins.cpp'],
     [('barrier bookkeeping of a group', 'src/core/WorkGroup.cpp'), ('ready/waiting lists per group', 'src/core/KernelInvocation.cpp')],
     [], ['memory after the kernel', 'logged errors'])
prop('C05', 'Async copies move exactly the requested elements before the wait returns',
     'Every async_work_group_copy, strided copy and wait sequence executed uniformly by a group copies exactly the '
     'specified elements once, in both directions, for any element size, stride and length, and the data is in place when '
     'the wait on its event returns, with any number of copies outstanding, copies sharing an event, and waits on lists. '
     'A group is diagnosed exactly when its items disagree: about the source, destination, count, stride, element type, '
     'direction or place of a copy, about which copies they execute, or about the place, list or order of a wait; or '
     'when it waits for no event or finishes without waiting.',
     ['schedules', 'programs'],
     'all uniform and divergent sequences of async copies and waits x group sizes x schedules',
     'One or two fixed copies are tested with one group.',
     ['src/core/WorkGroup.cpp', 'src/core/WorkItemBuiltins.cpp'],
     [('async copy registration and event ids', 'src/core/WorkGroup.cpp'), ('builtins', 'src/core/WorkItemBuiltins.cpp')],
     [], ['memory after the kernel', 'logged errors'])
prop('C10', 'The instruction histogram counts every executed instruction exactly once',
     'The per-kernel instruction counts printed by the instruction counter equal the number of instructions actually '
     'executed by all work-items, for every worker count and schedule, over successive kernels, including bytes moved '
     'per address space and calls per function.',
     ['schedules', 'programs', 'histories'],
     'all programs x worker counts x schedules x sequences of kernels',
     'The plugin has one smoke test; a lost or merged count needs several workers and kernels using different functions.',
     ['src/plugins/InstructionCounter.cpp'],
     [('per-worker counters merged when a work-group completes', 'src/plugins/InstructionCounter.cpp')],
     [], ['printed table'])
prop('C13', 'Kernel printf output is complete and never torn',
     'Every executed kernel printf produces its formatted text exactly once on standard output, as one unbroken piece '
     'even when several workers print at the same time, in program order for each work-item. The text is the one OpenCL C '
     'prescribes for the format string and the argument values, for every conversion, flag, width, precision, length '
     'modifier and vector size.',
     ['schedules', 'programs'],
     'all printf programs x worker counts x schedules',
     'The printf tests use one work-item.',
     ['src/core/WorkItemBuiltins.cpp'],
     [('printf builtin holds a lock while printing', 'src/core/WorkItemBuiltins.cpp')],
     [], ['stdout'])
prop('C14', 'Commands run exactly once, in queue order, after their wait lists',
     'Every enqueued command executes exactly once. It never starts before the commands and user events in its wait list '
     'are complete, before its predecessors in an in-order queue, or across a barrier or marker in an out-of-order '
     'queue; finish, blocking calls and event waits return only when what they wait for has completed, and flush makes '
     'progress on every command that no unset user event holds back.',
     ['histories', 'schedules'],
     'all histories of enqueues on 1-3 in-order/out-of-order queues with cross-queue wait lists, user events completed by other threads at any point, markers, barriers, flush, finish, waits',
     'Tests exercise a couple of straight-line histories and never complete user events concurrently.',
     ['src/core/Queue.cpp', 'src/runtime/async_queue.cpp', R],
     [('execution of a command and its dependencies', 'src/core/Queue.cpp'), ('wait lists and release', 'src/runtime/async_queue.cpp'),
      ('clFinish, clFlush, clWaitForEvents, blocking calls', R)],
     [], ['native kernel executions', 'event status'])
prop('C15', 'Event status only moves forward, callbacks fire once, failures propagate',
     'The execution status of an event only decreases and ends complete or with an error. A registered event callback is '
     'called exactly once when its state is reached - also if it already was - with the registered status or the error. '
     'When an event in a wait list ends with an error, the waiting command does not execute, ends with that error, and '
     'blocking calls and event waits report it.',
     ['histories', 'schedules', 'fault_sequences'],
     'all command histories with failing user events set by any thread at any point x callback registrations',
     'Failing user events and callbacks are barely tested.',
     ['src/core/Queue.cpp', 'src/runtime/async_queue.cpp', R],
     [('state transitions', 'src/core/Queue.cpp'), ('callback delivery', 'src/runtime/async_queue.cpp'), ('clSetUserEventStatus, clSetEventCallback', R)],
     [], ['clGetEventInfo', 'callbacks'])
prop('C16', 'Buffer commands move exactly the requested bytes',
     'After any history of buffer writes, reads, copies, fills, rectangular transfers, maps, sub-buffer accesses and '
     'kernels ordered by queues and events, buffer and host memory hold exactly the bytes that executing the commands in '
     'a dependency order gives; bytes outside the requested regions never change.',
     ['histories', 'schedules'],
     'all histories of transfer commands with arbitrary regions, pitches and offsets x queue kinds x event timing',
     'Each transfer command has at most one fixed-shape test.',
     ['src/core/Queue.cpp', 'src/core/Memory.cpp', R],
     [('command execution', 'src/core/Queue.cpp'), ('host transfers', 'src/core/Memory.cpp'), ('argument translation', R)],
     [], ['buffer contents', 'host memory'])
prop('C17', 'Image commands move exactly the requested pixels',
     'After any history of image reads, writes, copies, fills, maps and image/buffer copies on 1D, 2D, 3D and array '
     'images, with any region, origin and host pitch, image, buffer and host memory hold exactly the pixels that '
     'executing the commands in a dependency order gives.',
     ['histories', 'schedules'],
     'all histories of image commands over five image types and five pixel sizes x queue kinds x event timing',
     'Image transfer commands are not tested beyond one 2D app.',
     [R, 'src/core/Queue.cpp'],
     [('image command translation', R), ('rect commands', 'src/core/Queue.cpp')],
     [], ['image contents', 'host memory'])
prop('C21', 'Profiling timestamps are ordered even when the wall clock jumps',
     'For every completed command the profiling times satisfy queued <= submitted <= started <= ended, and a command '
     'starts no earlier than the end of every command it depends on, whatever the system wall clock does meanwhile.',
     ['fault_sequences', 'histories', 'schedules'],
     'all command histories x forward and backward wall-clock jumps at any clock read',
     'Tests never move the clock.',
     ['src/core/common.cpp', 'src/core/Queue.cpp', R],
     [('time source', 'src/core/common.cpp'), ('timestamps taken around execution', 'src/core/Queue.cpp')],
     [], ['clGetEventProfilingInfo'])
prop('C22', 'Host threads with contexts of their own do not affect each other',
     'When several host threads use Oclgrind at the same time, each with a context, queue, buffers and kernels of its own, '
     'every thread gets what it would get alone: its calls return the same results, its kernels execute every work-item '
     'exactly once, its memory, events, callbacks and reference counts are the same, API errors notify only its context, '
     'and the diagnostics and printed lines of all threads are complete. The process never crashes or deadlocks.',
     ['schedules', 'histories'],
     'all histories of commands and kernels on 2-3 host threads x worker counts x interleavings of all threads',
     'No test uses more than one host thread.',
     ['src/core/KernelInvocation.cpp', 'src/runtime/async_queue.cpp', 'src/runtime/runtime.cpp'],
     [('work-group distribution state per invocation', 'src/core/KernelInvocation.cpp'),
      ('maps of retained objects shared by all queues', 'src/runtime/async_queue.cpp')],
     [], ['buffer contents', 'API results', 'stderr', 'stdout'])
prop('C23', 'A command uses the arguments and data captured when it was enqueued',
     'Kernel argument values, local sizes, native-kernel arguments, fill patterns and wait lists are captured when a '
     'command is enqueued: changing kernel arguments, overwriting the caller\'s memory or releasing kernels and '
     'events afterwards never changes what a still pending command does.',
     ['histories', 'schedules'],
     'all histories that mutate or release the captured objects between enqueue and execution x event timing',
     'Tests set arguments once per enqueue and finish immediately.',
     ['src/core/Kernel.cpp', 'src/core/Queue.h', 'src/runtime/async_queue.cpp', R],
     [('kernel cloned at enqueue', R), ('objects retained until release', 'src/runtime/async_queue.cpp')],
     [], ['buffer contents', 'simulated heap'])

prop('C25', 'oclgrind-kernel runs simulation files faithfully or reports why not',
     'For every well-formed simulation file oclgrind-kernel runs the kernel with exactly the described sizes and argument '
     'values (data, fill, range, hex, null, noinit, local sizes) and prints exactly the final contents of the dumped '
     'arguments (with -g also global memory), for source and bitcode programs, any worker count and any options that only '
     'affect reports or limits. A malformed command line or file, a program that does not build or '
     'an input that cannot be read gives a diagnostic and a failing exit status, never a run on wrong data, a crash or '
     'silence. Short and interrupted reads make no difference.',
     ['inputs', 'fault_sequences', 'schedules'],
     'all simulation files over the documented format and its malformations x I/O faults at any read x schedules',
     'Tests run a few dozen fixed well-formed files on a working file system.',
     ['src/kernel/Simulation.cpp', 'src/kernel/oclgrind-kernel.cpp', 'src/core/Program.cpp'],
     [('simulation file parser', 'src/kernel/Simulation.cpp'), ('bitcode loading', 'src/core/Program.cpp')],
     [], ['stdout', 'stderr', 'exit status'])

exec(open(os.path.join(V, 'tools', 'props_more.py')).read())

NA = {
    'C27': 'Pure function of its input: the numeric result of a built-in function has no schedule, clock, fault or interleaving in it; not a simulation target.',
    'C29': 'The runtime has no synchronisation for API calls that share a context, queue or object between host threads, and its documentation does not promise any; there is no guarantee to decide beyond C22.',
}
prop('C27', 'Built-in functions return the values OpenCL defines',
     'Every OpenCL C built-in math, integer, geometric, relational, conversion and vector function returns the value the OpenCL specification defines for its arguments.',
     ['inputs'], 'all built-ins x all argument values', 'Tests sample a few values.', ['src/core/WorkItemBuiltins.cpp'],
     [('builtin table', 'src/core/WorkItemBuiltins.cpp')])
prop('C29', 'API calls on shared objects from several host threads are thread-safe',
     'API calls made concurrently by several host threads on shared contexts, queues and memory objects behave as if executed one after another.',
     ['schedules'], 'all concurrent API histories', 'No test uses host threads.', [R, 'src/runtime/async_queue.cpp'], [('none', R)])

P.sort(key=lambda p: p['id'])
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if i in PROPS:
        c = 'python3 tools/check.py --property %s --tier ' % i
        checks.append(dict(property=i, quick_cmd=c + 'quick', thorough_cmd=c + 'thorough',
                           technique='deterministic simulation with fault injection: seeded schedule/fault search, '
                                     + PROPS[i]['oracle'],
                           level='exploration',
                           level_note=PROPS[i].get('note', 'Seeded sampling of schedules, workloads and faults on the real '
                                                   'code; assumes sequential consistency and trusts the simulator, the '
                                                   'reference model and the compiler instrumentation.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check built yet.')))
m = dict(version=1, setup_cmd='bash tools/build.sh',
         hooks=dict(guard='none', enable='No source hooks: /repo is compiled unchanged with -fsanitize=thread style '
                    'instrumentation whose callbacks, and all interposed libc/pthread calls, are provided by the '
                    'simulator library.', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='All randomness derives from VERIF_SEED. Replay: python3 tools/check.py --property ID --replay FILE.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(P), 'properties', len(checks), 'checks', [x['property'] for x in na])
