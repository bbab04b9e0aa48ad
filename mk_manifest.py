#!/usr/bin/env python3
"""Writes MANIFEST.json (kept as a script so that the entries stay uniform)."""
import json, os
T = 'deterministic simulation with fault injection: seeded worlds (network, disk, crash, migration faults) driven against the real library, '
C = {
 'C01': ('streams of every chunking on portable nodes of every kind of machine; oracle: refinement of a small executable reference model of HighwayHash that holds the whole input',
         'Seeded exploration of (key, history, width) on eleven machine/build combinations, against an independent model that reproduces the published vectors (checked in every batch). Samples the key/input space.'),
 'C02': ('streams of every chunking on SSE, AVX2 and dispatching nodes, in every build configuration and on virtual processors; portable reference model in lockstep',
         'Seeded exploration of histories (chunkings, steered states, one-shot ends, calls above 4 GiB) in ten build configurations and on five virtual processors. Samples the key/input space.'),
 'C03': ('NEON nodes on an emulated aarch64 machine migrating streams to and from portable nodes; portable reference model',
         'Seeded exploration of streams, chunkings and checkpoint migrations between NEON, portable and dispatching hashers on emulated aarch64 (optimised, with checks, and no_std builds). Samples the key/input space; trusts qemu-aarch64.'),
 'C04': ('wasm simd128 nodes inside V8 migrating streams to and from portable nodes; portable reference model',
         'Seeded exploration of streams, chunkings and checkpoint migrations between the simd128, portable and dispatching hashers inside V8. Samples the key/input space; trusts V8.'),
 'C05': ('chunking decided by simulated packetisation, short reads, retransmission and stalls; oracle: one call over the concatenation',
         'Seeded exploration of call histories through ten public routes on six machines, including single calls above 4 GiB. Not exhaustive.'),
 'C06': ('crash/restart and migration at arbitrary cut points between node types; oracle: the uninterrupted hasher of the originating type',
         'Seeded exploration of crash points, hop sequences and target types, with every later result compared at all widths. Not exhaustive.'),
 'C07': ('default-constructed nodes shadowed call by call by zero-key nodes of the same type and by the defaults of all other types, through clones, observers and faults',
         'Seeded exploration of histories of default-constructed hashers of every type on seven kinds of machine, compared at every observation (results, checkpoints, Debug) with zero-key hashers. Not exhaustive.'),
 'C08': ('every public operation in fault-laden histories with corrupted checkpoints, in builds with and without overflow checks; oracle: no panic, signal or hang',
         'The dynamic half only: no explored sequence panics in any build profile. That optimised code contains no panic path at all is a static fact about the binary which a simulation cannot decide and this check does not claim.'),
 'C09': ('memory placement as an injected fault: inputs and hashers against unmapped pages, four placements per trace; Miri for the remaining accesses',
         'Out-of-bounds accesses are seen when they cross a guard page or change a result (native, emulated), and without exception in the runs made under Miri (portable, SSE4.1, AVX2). Finite sample of lengths, alignments and histories.'),
 'C10': ('virtual processors with chosen CPUID and build configurations as the simulated environment; oracle: permitted set, equal selection, portable results',
         'Every listed build configuration crossed with up to 15 virtual processors; every way of obtaining a dispatcher in random histories. The selected backend is read from the Debug form; if that ever stops naming it, only results are compared (counted as inconclusive).'),
 'C11': ('disk faults (bit flips, torn, lost, misplaced, stale writes, garbage) in checkpoints that are then restored on every backend in lockstep',
         'Seeded exploration of corrupted checkpoints followed by histories on all backends of a machine in lockstep, and the same traces across machines. Not exhaustive over 2^1312 inputs.'),
 'C12': ('the hashers behind faulty readers, buffered writers, collections and dyn Hasher; oracle: a recorder of the bytes written and a reference map',
         'Seeded exploration of adapter histories; two processes per trace compared; writes above 4 GiB included. Not exhaustive.'),
 'C13': ('observers (polls, logs into failing sinks, forks, checkpoints) injected at random points; oracle: the same calls without them',
         'Seeded exploration of placements of observers, clones and clone_from in histories. Not exhaustive.'),
 'C14': ('replicas of one stream under different faults, node types and hops; oracle: one registry of checkpoint bytes per logical state, and taint by repetition',
         'Seeded exploration; absorbed bytes are found by repeating a history over twelve independent contents (error probability below 2^-80 per check). Not exhaustive.'),
 'C15': ('seeded scheduler that interleaves sessions at single machine instructions (x86_64), at operations, or under Miri with its data-race detector; oracle: each session alone',
         'Seeded exploration of interleavings of up to five sessions, including interrupt handlers that hash. Finite sample of schedules; instruction-level only on x86_64.'),
 'C17': ('the same traces executed on little- and big-endian, 32- and 64-bit machines; oracle: digests of all results and checkpoints agree',
         'Seeded exploration of the portable hasher on x86_64, i686, wasm32, aarch64, powerpc64 and powerpc (interpreted). Not exhaustive.'),
 'C18': ('an allocator under the simulator\'s control that counts or fails inside library calls; plus a program with no allocator at all that must link',
         'Seeded exploration of histories with an allocator that reports every allocation made inside a library call; and a build of a freestanding program using every operation.'),
}
NA = {
 'C16': 'A property of the source text (no unsafe in any cfg combination), not of executions: nothing to simulate.',
}
checks = [{
  'property': k,
  'quick_cmd': 'python3 check.py %s --tier quick' % k,
  'thorough_cmd': 'python3 check.py %s --tier thorough' % k,
  'evidence_file': 'evidence/%s.json' % k,
  'technique': T + t, 'level': 'exploration', 'level_note': n,
} for k, (t, n) in C.items()]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'none', 'enable': 'No hooks were needed: everything is driven through the public API, and the environment (allocator, memory map, processor, scheduler) is controlled from outside the crate.', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
     'notes': 'See DESIGN.md. Replay: python3 check.py <ID> --replay <file>.'}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
