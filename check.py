#!/usr/bin/env python3
"""Runs the simulator for one property on every machine the property is about.

  check.py C05 [--tier quick|thorough]     decide the property: exit 0 held, 1 VIOLATION, 2 no answer
  check.py C05 --replay FILE               re-execute a replay file: exit 1 if it still violates
  check.py --setup                         check the toolchain, build what most checks use

The environment's VERIF_SEED fixes every random choice.  See DESIGN.md.
"""
import argparse, json, os, re, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
TARGET = os.path.join(HERE, 'target')
T0 = time.time()
NPROC = min(8, os.cpu_count() or 8)

ENV = dict(os.environ)
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '')
ENV.update({
    'CARGO_NET_OFFLINE': 'true',
    'CARGO_TERM_COLOR': 'never',
    'CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER': 'aarch64-linux-gnu-gcc',
    'CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER': 'i686-linux-gnu-gcc',
    'LC_ALL': 'C',
})
for v in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER',
          'MIRIFLAGS', 'HWSIM_FIXED', 'CARGO_BUILD_RUSTFLAGS'):
    ENV.pop(v, None)
STABLE = '1.99.1'      # the toolchain that has the cross targets' standard libraries
MIRIFLAGS = '-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks'


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------------------------------------
# machines

class Machine:
    def __init__(self, name, what, target=None, rel=True, std=True, flags='', run=(), kind='native', procs=NPROC,
                 rate=500, big=False, scale=(), cpu=None, watch=False):
        self.name, self.what, self.target, self.rel, self.std = name, what, target, rel, std
        self.flags, self.run, self.kind, self.rate, self.big = flags, list(run), kind, rate, big
        self.scale, self.cpu, self.watch = list(scale) or WIDE, cpu, watch

    # builds are shared between machines that differ only in the emulated processor
    def build_key(self):
        return (self.kind, self.target, self.rel, self.std, self.flags, self.watch)

    def dir(self):
        k = re.sub(r'[^a-z0-9]+', '_', '-'.join([self.kind, self.target or 'host', 'std' if self.std else 'nostd',
                                                 self.flags, 'watch' if self.watch else '']).lower()).strip('_')
        if self.kind != 'miri':
            k += '-rel' if self.rel else '-dev'
        return os.path.join(TARGET, k)

    def feats(self):
        f = (['hwstd'] if self.std else []) + (['watch'] if self.watch else [])
        return ['--features', ','.join(f)] if f else []

    def build(self):
        env = dict(ENV)
        man = ['--manifest-path', os.path.join(SIM, 'Cargo.toml'), '--offline', '--target-dir', self.dir()]
        tgt = ['--target', self.target] if self.target else []
        prof = ['--release'] if self.rel else []
        if self.flags:
            env['RUSTFLAGS'] = self.flags
        if self.kind == 'miri':
            env['RUSTUP_TOOLCHAIN'] = 'nightly'
            env['MIRIFLAGS'] = MIRIFLAGS
            cmd = ['cargo', 'miri', 'run'] + man + tgt + self.feats() + ['--bin', 'hwsim', '--', 'info']
        elif self.kind == 'wasm':
            env['RUSTUP_TOOLCHAIN'] = STABLE
            cmd = ['cargo', 'rustc'] + man + tgt + prof + self.feats() + ['--lib', '--crate-type', 'cdylib']
        else:
            env['RUSTUP_TOOLCHAIN'] = STABLE
            if self.watch:
                env['RUSTC_WRAPPER'] = os.path.join(HERE, 'watch', 'rustc.sh')
                env['RUSTC_BOOTSTRAP'] = '1'
            cmd = ['cargo', 'build'] + man + tgt + prof + self.feats() + ['--bin', 'hwsim']
        p = subprocess.run(cmd, env=env, cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors='replace')
        if p.returncode != 0:
            raise NoAnswer('cannot build %s: %s' % (self.name, tail_errors(p.stdout)))
        sub = ([self.target] if self.target else []) + ['release' if self.rel else 'debug']
        d = os.path.join(self.dir(), *sub)
        self.artifact = os.path.join(d, 'hwsim.wasm' if self.kind == 'wasm' else 'hwsim')

    def bind(self, other):
        self.artifact = getattr(other, 'artifact', None)

    def argv(self, args):
        """command line and environment of one simulator invocation"""
        if self.kind == 'wasm':
            return ['node', os.path.join(SIM, 'host.mjs')] + args + ['--wasm', self.artifact], ENV
        if self.kind == 'miri':
            env = dict(ENV)
            env['RUSTUP_TOOLCHAIN'] = 'nightly'
            seed = 0
            a = list(args)
            if '--miri-seed' in a:
                i = a.index('--miri-seed')
                seed = int(a[i + 1])
                del a[i:i + 2]
            env['MIRIFLAGS'] = MIRIFLAGS + ' -Zmiri-seed=%d' % seed
            if self.flags:
                env['RUSTFLAGS'] = self.flags
            tgt = ['--target', self.target] if self.target else []
            return (['cargo', 'miri', 'run', '-q', '--manifest-path', os.path.join(SIM, 'Cargo.toml'), '--offline',
                     '--target-dir', self.dir()] + tgt + self.feats() + ['--bin', 'hwsim', '--'] + a), env
        run = self.wrapper()
        # under an emulator the simulator must not re-execute itself: that would leave the emulator
        return run + [self.artifact] + args, dict(ENV, HWSIM_FIXED='1') if run else ENV

    def wrapper(self):
        """the emulator, unless the kernel runs the 32-bit program itself"""
        if self.target != I686:
            return self.run
        if not hasattr(self, 'direct'):
            try:
                self.direct = subprocess.run([self.artifact, 'info'], stdout=subprocess.PIPE, timeout=20,
                                             stderr=subprocess.DEVNULL).returncode == 0
            except (OSError, subprocess.TimeoutExpired):
                self.direct = False
        return [] if self.direct else self.run

    def probe(self):
        """the virtual processor must be the one that was asked for"""
        if self.cpu is None:
            return
        cmd, env = self.argv(['info'])
        rc, out, err = run_proc(cmd, env, 60)
        want = 'Cpu { sse41: %s, avx2: %s }' % tuple(str(x).lower() for x in self.cpu)
        if want not in out:
            raise NoAnswer('%s: expected %s, found: %s' % (self.name, want, (out or err)[-300:]))


def tail_errors(s):
    ls = [l for l in s.splitlines() if l.startswith('error') or 'error[' in l]
    return '; '.join(ls[:4])[:600] or s[-600:]


QA = ['qemu-aarch64', '-L', '/usr/aarch64-linux-gnu']
QI = ['qemu-i386', '-L', '/usr/i686-linux-gnu']
ARMS = ['--max', '6000', '--steps', '300', '--huge', '300000', '--hugepm', '8']
CPUS_SCALE = ['--max', '3000', '--steps', '200', '--huge', '150000', '--hugepm', '5', '--threads', '0']
WIDE = ['--huge', '1000000', '--hugepm', '5']
ARM, I686, WASM = 'aarch64-unknown-linux-gnu', 'i686-unknown-linux-gnu', 'wasm32-unknown-unknown'
BE64, BE32 = 'powerpc64-unknown-linux-gnu', 'powerpc-unknown-linux-gnu'
SIMD = '-C target-feature=+simd128'
M = {}


def machine(name, what, **kw):
    M[name] = Machine(name, what, **kw)


machine('x64', 'x86_64 processor, optimised build', rate=900, big=True)
machine('x64-dev', 'x86_64 processor, build with overflow checks and debug assertions', rel=False, rate=600, big=True)
machine('x64-nostd', 'x86_64 processor, crate without std, optimised', std=False, rate=900, big=True)
machine('x64-nostd-dev', 'x86_64 processor, crate without std, overflow checks and debug assertions', std=False,
        rel=False, rate=600, big=True)
machine('x64-avx2', 'x86_64 processor, compiled with +avx2, optimised', flags='-C target-feature=+avx2', rate=900)
machine('x64-native', 'x86_64 processor, compiled with target-cpu=native, optimised', flags='-C target-cpu=native',
        rate=900)
machine('arm', 'aarch64 (emulated instruction by instruction), optimised', target=ARM, run=QA, rate=30,
        scale=ARMS)
machine('arm-dev', 'aarch64 (emulated), overflow checks and debug assertions', target=ARM, run=QA, rel=False, rate=20,
        scale=ARMS)
machine('arm-nostd', 'aarch64 (emulated), crate without std', target=ARM, run=QA, std=False, rate=30,
        scale=ARMS)
machine('i686', '32-bit x86, optimised', target=I686, run=QI, rate=700, big=True)
machine('i686-dev', '32-bit x86, overflow checks and debug assertions', target=I686, run=QI, rel=False,
        rate=700, big=True)
machine('i686-nostd', '32-bit x86, crate without std', target=I686, run=QI, std=False, rate=700, big=True)
machine('wasm', 'wasm32 with simd128, optimised', target=WASM, flags=SIMD, kind='wasm', rate=500)
machine('wasm-dev', 'wasm32 with simd128, overflow checks and debug assertions', target=WASM, flags=SIMD, kind='wasm',
        rel=False, rate=300)
machine('wasm-scalar', 'wasm32 without simd128', target=WASM, kind='wasm', rate=500)
machine('wasm-nostd', 'wasm32 with simd128, crate without std', target=WASM, flags=SIMD, kind='wasm', std=False,
        rate=500)
machine('x64-watch', 'x86_64 processor, every load and store of the crate checked', watch=True, rate=300)
machine('x64-watch-dev', 'x86_64 processor, overflow checks and debug assertions, every load and store of the crate checked',
        watch=True, rel=False, rate=200)
machine('x64-watch-nostd', 'x86_64 processor, crate without std, every load and store of the crate checked', watch=True,
        std=False, rate=300)
machine('arm-watch', 'aarch64 (emulated), every load and store of the crate checked', watch=True, target=ARM, run=QA,
        rate=12, scale=ARMS)
machine('wasm-watch', 'wasm32 with simd128, every load and store checked', target=WASM, flags=SIMD, kind='wasm',
        watch=True, rate=120)
MS = ['--max', '100', '--steps', '40', '--huge', '420', '--hugepm', '120']
CROSS = ['--max', '5000', '--steps', '250', '--huge', '150000', '--hugepm', '10']
machine('miri', 'x86_64 interpreter that checks every memory access (Miri), portable backend', kind='miri', rel=False,
        rate=0.6, scale=MS)
machine('miri-simd', 'x86_64 interpreter that checks every memory access (Miri), SSE4.1 and AVX2 backends',
        kind='miri', rel=False, flags='-C target-feature=+sse4.1,+avx2', rate=0.5, scale=MS)
machine('be64', '64-bit big-endian interpreter (Miri, powerpc64)', kind='miri', rel=False, target=BE64, rate=0.6,
        scale=MS)
machine('be32', '32-bit big-endian interpreter (Miri, powerpc)', kind='miri', rel=False, target=BE32, rate=0.6,
        scale=MS)
# processors of different abilities, for the selection of a backend
SSE, AVX = '-C target-feature=+sse4.1', '-C target-feature=+avx2'
AVX1, SSSE3 = '-C target-feature=+avx', '-C target-feature=+ssse3'
NOAVX = '-C target-feature=+sse4.1,-avx2'
V2, V3 = '-C target-cpu=x86-64-v2', '-C target-cpu=x86-64-v3'
CPUS = {
    ('std', ''): ['qemu64', 'kvm64', 'Conroe', 'Penryn', 'Nehalem', 'SandyBridge', 'IvyBridge', 'Haswell', 'EPYC',
                  'max,-avx2', 'max,-avx', 'max,-xsave', 'max'],
    ('nostd', ''): ['qemu64', 'Penryn', 'SandyBridge', 'Haswell', 'max'],
    ('std', SSE): ['Penryn', 'Nehalem', 'SandyBridge', 'Haswell', 'max,-avx2', 'max,-xsave'],
    ('nostd', SSE): ['Penryn', 'SandyBridge', 'Haswell'],
    ('std', AVX): ['Haswell', 'EPYC', 'max'],
    ('nostd', AVX): ['Haswell', 'max'],
    ('std', NOAVX): ['Penryn', 'Haswell', 'max'],
    ('nostd', NOAVX): ['Penryn', 'Haswell'],
    # compile-time features next to the ones that matter
    ('std', AVX1): ['SandyBridge', 'IvyBridge', 'Haswell', 'max,-avx2'],
    ('nostd', AVX1): ['SandyBridge', 'Haswell'],
    ('std', SSSE3): ['Conroe', 'Penryn', 'Haswell'],
    ('nostd', SSSE3): ['Conroe', 'Haswell'],
    ('std', V2): ['Nehalem', 'SandyBridge', 'Haswell'],
    ('nostd', V2): ['Nehalem'],
    ('std', V3): ['Haswell', 'max'],
    ('nostd', V3): ['Haswell'],
}
# what each of them must look like from inside (checked before every use): SSE4.1, AVX2
CPU_HAS = {'qemu64': (False, False), 'kvm64': (False, False), 'Conroe': (False, False), 'Penryn': (True, False),
           'Nehalem': (True, False), 'SandyBridge': (True, False), 'IvyBridge': (True, False), 'Haswell': (True, True),
           'EPYC': (True, True), 'max,-avx2': (True, False), 'max,-avx': (True, False),
           'max,-xsave': (True, False), 'max': (True, True)}
FLNAME = {'': 'plain', SSE: 'sse41', NOAVX: 'noavx2', AVX: 'avx2', AVX1: 'avx', SSSE3: 'ssse3', V2: 'v2', V3: 'v3'}
CPU_MACHINES = []
for (std, fl), cpus in CPUS.items():
    for c in cpus:
        n = 'cpu-%s-%s-%s' % (std, FLNAME[fl], c)
        machine(n, 'emulated x86_64 processor "%s", crate %s, compiled with "%s"' % (c, std, fl or 'defaults'),
                std=std == 'std', flags=fl, run=['qemu-x86_64', '-cpu', c], rate=60, cpu=CPU_HAS[c],
                scale=CPUS_SCALE)
        CPU_MACHINES.append(n)
for c in ('qemu64', 'Penryn', 'Haswell'):
    n = 'cpu-std-dev-%s' % c
    machine(n, 'emulated x86_64 processor "%s", unoptimised build with checks' % c, rel=False,
            run=['qemu-x86_64', '-cpu', c], rate=40, cpu=CPU_HAS[c], scale=CPUS_SCALE)
    CPU_MACHINES.append(n)
machine('x64-sse', 'x86_64 processor, compiled with +sse4.1', flags=SSE, rate=900)
machine('x64-nostd-sse', 'x86_64 processor, no std, compiled with +sse4.1', std=False, flags=SSE, rate=900)
machine('x64-nostd-avx2', 'x86_64 processor, no std, compiled with +avx2', std=False, flags=AVX, rate=900)
machine('x64-nostd-native', 'x86_64 processor, no std, target-cpu=native', std=False, flags='-C target-cpu=native',
        rate=900)


# ---------------------------------------------------------------------------------------------
# what each property is run on: (machine, runs at the quick tier, runs at the thorough tier)

class Prop:
    def __init__(self, runs, cross=None, huge=False, giant=(), freestanding=False, cross_small=None, tf=False,
                 warm=5, rule='', note=''):
        self.runs, self.cross, self.huge, self.giant = runs, cross, huge, giant
        self.cross_small, self.freestanding, self.tf, self.warm = cross_small, freestanding, tf, warm
        self.rule = rule


BASE_RULE = ('one evaluation is one simulated run: a seeded world (clients, faulty network, heterogeneous workers, '
             'faulty disk, crashes, restarts, migrations) executed step by step against the real library on one machine; ')
NT_HOP = (BASE_RULE + 'non-trivial: some append met a partly filled packet buffer or some hasher was restored; '
          'distinct: by the sequence of (operation, object, session, size, route, node type)')
P = {
    'C01': Prop([('x64', 24000, 900000), ('x64-dev', 6000, 250000), ('x64-nostd', 8000, 200000),
                 ('x64-native', 5000, 100000), ('i686', 9000, 300000), ('i686-dev', 3000, 120000),
                 ('arm', 700, 18000), ('wasm', 5000, 120000), ('wasm-scalar', 8000, 140000),
                 ('be64', 24, 900), ('be32', 24, 900)], huge=True, giant=[('x64', 0), ('i686', 0)], rule=NT_HOP),
    'C02': Prop([('x64', 54000, 1500000), ('x64-dev', 15000, 300000), ('x64-nostd', 25000, 300000),
                 ('x64-nostd-dev', 8000, 100000), ('x64-sse', 15000, 200000), ('x64-avx2', 15000, 200000),
                 ('x64-native', 15000, 200000), ('x64-nostd-sse', 8000, 100000), ('x64-nostd-avx2', 8000, 100000),
                 ('x64-nostd-native', 8000, 100000), ('cpu-std-plain-Penryn', 500, 8000),
                 ('cpu-std-dev-Penryn', 300, 4000), ('cpu-std-plain-max', 300, 6000), ('cpu-std-plain-qemu64', 300, 4000),
                 ('cpu-std-sse41-SandyBridge', 300, 4000), ('cpu-nostd-sse41-Penryn', 300, 4000)], huge=True,
                giant=[('x64', 1), ('x64', 2)], rule=NT_HOP),
    'C07': Prop([('x64', 36000, 900000), ('x64-dev', 12000, 300000), ('x64-nostd', 15000, 200000),
                 ('x64-avx2', 8000, 100000), ('x64-nostd-sse', 5000, 60000), ('arm', 1500, 20000),
                 ('arm-nostd', 500, 6000), ('i686', 12000, 250000), ('wasm', 15000, 160000),
                 ('wasm-scalar', 5000, 60000), ('cpu-std-plain-Penryn', 300, 4000),
                 ('cpu-std-plain-qemu64', 300, 4000), ('x64-nostd-avx2', 4000, 50000), ('wasm-nostd', 2000, 20000)], rule=NT_HOP),
    'C03': Prop([('arm', 20000, 220000), ('arm-dev', 5000, 60000), ('arm-nostd', 1200, 12000)],
                giant=[('arm', 1)], rule=NT_HOP),
    'C04': Prop([('wasm', 140000, 1800000), ('wasm-dev', 40000, 400000), ('wasm-nostd', 12000, 120000)], rule=NT_HOP),
    'C05': Prop([('x64', 60000, 2000000), ('x64-dev', 24000, 500000), ('x64-nostd', 25000, 300000),
                 ('arm', 2500, 30000), ('i686', 36000, 800000), ('wasm', 18000, 200000), ('x64-nostd-avx2', 5000, 60000),
                 ('x64-nostd-sse', 5000, 60000)], huge=True,
                giant=[('x64', 0), ('x64', 1), ('x64', 3), ('i686', 0)], rule=NT_HOP),
    'C06': Prop([('x64', 36000, 2000000), ('x64-dev', 15000, 500000), ('arm', 2500, 40000), ('wasm', 13000, 200000),
                 ('i686', 24000, 800000), ('x64-nostd', 8000, 120000), ('x64-nostd-sse', 5000, 60000),
                 ('x64-nostd-avx2', 5000, 60000), ('wasm-scalar', 4000, 50000)], huge=True, rule=NT_HOP),
    'C08': Prop([('x64', 36000, 1200000), ('x64-dev', 36000, 1200000), ('x64-nostd', 20000, 200000),
                 ('x64-nostd-dev', 25000, 300000), ('i686-dev', 15000, 500000), ('arm-dev', 1500, 20000),
                 ('wasm-dev', 12000, 120000), ('cpu-std-dev-Penryn', 300, 4000)], huge=True,
                giant=[('x64-dev', 0), ('x64-dev', 1), ('x64-dev', 2), ('i686-dev', 0)], rule=NT_HOP),
    'C09': Prop([('x64', 6000, 500000), ('x64-dev', 1800, 150000), ('x64-avx2', 5000, 250000),
                 ('x64-nostd', 2000, 60000), ('arm', 400, 10000), ('i686', 1800, 150000), ('wasm', 4000, 100000),
                 ('x64-watch', 3000, 100000), ('x64-watch-dev', 1200, 40000), ('x64-watch-nostd', 1000, 30000),
                 ('arm-watch', 300, 8000), ('wasm-watch', 1500, 40000), ('miri', 40, 600), ('miri-simd', 80, 1400)], huge=True, rule=NT_HOP),
    'C10': Prop([('x64', 15000, 400000), ('x64-dev', 4800, 100000), ('x64-nostd', 15000, 200000),
                 ('x64-native', 8000, 100000), ('x64-nostd-native', 6000, 80000), ('x64-sse', 6000, 80000),
                 ('x64-avx2', 6000, 80000), ('x64-nostd-sse', 6000, 80000), ('x64-nostd-avx2', 6000, 80000),
                 ('arm', 500, 8000), ('arm-nostd', 400, 4000), ('arm-dev', 300, 4000), ('wasm', 3000, 30000),
                 ('wasm-dev', 1500, 15000), ('wasm-scalar', 3000, 30000),
                 ('wasm-nostd', 2000, 20000), ('i686', 4800, 100000), ('i686-nostd', 6000, 80000)]
                + [(n, 260, 4000) for n in CPU_MACHINES], rule=NT_HOP),
    'C11': Prop([('x64', 36000, 900000), ('x64-dev', 36000, 900000), ('x64-nostd-dev', 8000, 100000),
                 ('arm-dev', 900, 10000), ('arm', 700, 8000), ('wasm-dev', 9000, 100000), ('i686-dev', 15000, 300000),
                 ('x64-watch', 4000, 80000), ('arm-watch', 300, 6000), ('wasm-watch', 1500, 30000),
                 ('x64-nostd-sse', 5000, 50000)],
                cross=(['x64', 'x64-dev', 'arm', 'arm-dev', 'wasm-dev', 'i686-dev'], 320, 4000), rule=NT_HOP),
    'C12': Prop([('x64', 27000, 1000000), ('x64-dev', 8400, 300000), ('x64-nostd', 12000, 100000),
                 ('arm', 700, 10000), ('i686', 6600, 300000), ('wasm', 8000, 120000),
                 ('x64-nostd-sse', 4000, 40000), ('cpu-std-plain-Penryn', 200, 3000)], huge=True,
                giant=[('x64', 2), ('x64', 3), ('x64', 4)], rule=NT_HOP),
    'C13': Prop([('x64', 33000, 1400000), ('x64-dev', 12000, 400000), ('x64-nostd', 8000, 120000),
                 ('arm', 2500, 24000), ('i686', 18000, 500000), ('wasm', 14000, 160000),
                 ('x64-watch', 2500, 60000), ('arm-watch', 250, 5000), ('miri-simd', 14, 300),
                 ('x64-nostd-sse', 4000, 60000)],
                rule=NT_HOP + '; some runs also have several threads observe one hasher at once'),
    'C14': Prop([('x64', 36000, 800000), ('x64-dev', 12000, 240000), ('arm', 1200, 14000), ('wasm', 9000, 100000),
                 ('i686', 18000, 300000), ('x64-nostd-sse', 6000, 60000), ('x64-nostd-avx2', 6000, 60000)],
                cross=(['x64', 'arm', 'wasm', 'i686'], 400, 4000), rule=NT_HOP),
    'C15': Prop([('x64', 6000, 100000), ('x64-dev', 2000, 30000), ('x64-nostd', 1000, 16000), ('arm', 500, 6000),
                 ('i686', 6000, 80000), ('wasm', 4000, 40000), ('x64-watch', 3500, 60000), ('arm-watch', 300, 5000),
                 ('miri', 32, 500), ('miri-simd', 56, 900)], warm=0,
                rule=BASE_RULE + 'here several sessions share one process (threads interleaved at single machine '
                'instructions on x86_64, at single memory accesses on aarch64, at operation boundaries or by a seeded interpreter elsewhere); non-trivial: '
                'at least two sessions; distinct: by operations and by the schedule of hand-overs'),
    'C17': Prop([('x64', 18000, 400000), ('i686', 24000, 500000), ('i686-dev', 12000, 200000), ('wasm-scalar', 6000, 60000),
                 ('arm', 600, 8000)],
                cross=(['x64', 'i686', 'wasm-scalar', 'arm'], 600, 8000),
                cross_small=(['x64', 'i686', 'be64', 'be32'], 160, 2400), rule=NT_HOP),
    'C18': Prop([('x64', 42000, 900000), ('x64-dev', 15000, 300000), ('x64-nostd', 25000, 300000),
                 ('x64-nostd-dev', 8000, 100000), ('arm', 900, 10000), ('i686', 15000, 300000), ('wasm', 9000, 100000),
                 ('arm-nostd', 400, 4000), ('wasm-nostd', 3000, 30000), ('x64-nostd-avx2', 5000, 60000),
                 ('x64-nostd-sse', 5000, 60000)],
                huge=True, freestanding=True, rule=NT_HOP),
}

SPREAD = 28


def seed_base(seed, region):
    return ((seed % (1 << 27)) << 36) + (region << SPREAD)


# ---------------------------------------------------------------------------------------------
# running

PROCS = set()
PLOCK = threading.Lock()
STOP = threading.Event()


def run_proc(cmd, env, timeout):
    """-> (rc, stdout, stderr); rc None on timeout, 'stopped' when called off"""
    if STOP.is_set():
        return 'stopped', '', ''
    with tempfile.TemporaryFile('w+', errors='replace') as out, tempfile.TemporaryFile('w+', errors='replace') as err:
        p = subprocess.Popen(cmd, env=env, cwd=HERE, stdin=subprocess.DEVNULL, stdout=out, stderr=err,
                             start_new_session=True)
        with PLOCK:
            PROCS.add(p)
        rc = None
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            kill(p)
        finally:
            with PLOCK:
                PROCS.discard(p)
        if getattr(p, 'called_off', False):
            rc = 'stopped'
        out.seek(0)
        err.seek(0)
        return rc, out.read(), err.read()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def call_off():
    STOP.set()
    with PLOCK:
        for p in list(PROCS):
            p.called_off = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


class Violation:
    def __init__(self, mach, seed, oracle, msg, plan=None, flags=None, mach2=None, kind='run', prop=None):
        self.mach, self.seed, self.oracle, self.msg = mach, seed, oracle, msg
        self.plan, self.flags, self.mach2, self.kind, self.prop = plan, flags or [], mach2, kind, prop


def miri_verdict(rc, out, err):
    """what an interpreter session that did not end normally says"""
    m = re.search(r'error: (Undefined Behavior|unsupported operation|.*deadlock.*|abnormal termination[^\n]*|[^\n]*)', err)
    ub = re.search(r'error: Undefined Behavior: ([^\n]*)', err)
    in_lib = bool(re.search(r'/repo/src/|highway::', err))
    if ub and in_lib:
        o = 'data-race' if 'race' in ub.group(1).lower() else 'undefined-behaviour'
        return ('viol', o, 'step 0: the interpreter reports: ' + ub.group(1)[:300])
    pm = re.search(r'panic(?:ked at|:)[^\n]*', err)
    if rc == 101 and pm and '/repo/src/' in pm.group(0):
        return ('viol', 'panic', 'step 0: ' + pm.group(0)[:300])
    return ('harness', '', (m.group(0) if m else err[-300:]).replace('\n', ' '))


class Totals:
    def __init__(self):
        self.n = {}
        self.faults = {}
        self.cov = 0
        self.sigs = {}
        self.per = {}
        self.wall = {}
        self.lock = threading.Lock()

    def add(self, mach, st, wall):
        with self.lock:
            for k, v in st.items():
                if isinstance(v, (int, float)):
                    self.n[k] = self.n.get(k, 0) + v
            for k, v in st.get('faults', {}).items():
                self.faults[k] = self.faults.get(k, 0) + v
            x = 0
            for i, w in enumerate(st.get('cov', '').split(',')):
                if w:
                    x |= int(w, 16) << (64 * i)
            self.cov |= x
            s = self.sigs.setdefault(mach, set())
            s.update(w for w in st.get('sigs', '').split(',') if w)
            self.per[mach] = self.per.get(mach, 0) + st.get('runs', 0)
            self.wall[mach] = self.wall.get(mach, 0) + wall


TOT = Totals()


def batch(prop, name, start, n, flags, secs, digests=False, tally=True, miri_seed=0):
    """one simulator process -> ('ok', digests) | ('viol', seed, oracle, msg) | ('harness', msg) | ('stopped',)"""
    m = M[name]
    a = ['batch', '--prop', prop, '--from', str(start), '--n', str(n), '--secs', str(int(secs))] + m.scale_flags(flags)
    if digests:
        a.append('--digests')
    if m.kind == 'miri':
        a += ['-v', '--miri-seed', str(miri_seed)]
    cmd, env = m.argv(a)
    t = time.time()
    rc, out, err = run_proc(cmd, env, secs * 2 + 120)
    wall = time.time() - t
    if rc == 'stopped':
        return ('stopped',)
    dig = {}
    res = None
    stats = None
    for l in out.splitlines():
        if l.startswith('digest '):
            _, s, d, x = l.split()
            dig[int(s)] = (d, x)
        elif l.startswith('VIOL '):
            q = re.match(r'VIOL seed=(\d+) oracle=(\S+) msg=(.*)', l)
            res = ('viol', int(q.group(1)), q.group(2), q.group(3))
        elif l.startswith('HARNESS'):
            res = ('harness', '%s: %s' % (name, l))
        elif l.startswith('stats '):
            stats = json.loads(l[6:])
    if stats and tally:
        TOT.add(name, stats, wall)
    if res:
        return res
    if rc is None:
        if m.kind == 'miri':
            return ('slow', dig)
        return ('harness', '%s: batch from %d made no progress' % (name, start))
    if rc != 0 or not stats:
        last = start
        for l in err.splitlines():
            q = re.match(r'seed (\d+) steps', l)
            if q:
                last = int(q.group(1))
        if m.kind == 'miri':
            v = miri_verdict(rc, out, err)
            if v[0] == 'viol':
                return ('viol', last, v[1], v[2])
            return ('harness', '%s seed %d: %s' % (name, last, v[2]))
        return ('harness', '%s: exit %s: %s' % (name, rc, (err or out)[-300:]))
    return ('ok', dig)


def scale_flags(self, flags):
    f = list(flags)
    for i in range(0, len(self.scale), 2):
        if self.scale[i] not in f:
            f += self.scale[i:i + 2]
    return f


Machine.scale_flags = scale_flags


def gen(prop, name, seed, flags):
    m = M[name]
    cmd, env = m.argv(['gen', '--prop', prop, '--seed', str(seed)] + m.scale_flags(flags))
    rc, out, err = run_proc(cmd, env, 180)
    i = out.find('hwsim 1')
    if rc != 0 or i < 0:
        raise NoAnswer('cannot regenerate seed %d on %s: %s' % (seed, name, err[-300:]))
    return out[i:].rstrip() + '\n'


def execute(name, plans, timeout=240, miri_seed=0):
    """-> per plan (status, oracle, digest, xdigest, msg)"""
    m = M[name]
    if m.kind == 'miri' and len(plans) > 1:
        with ThreadPoolExecutor(NPROC) as ex:
            return [r[0] for r in ex.map(lambda p: execute(name, [p], timeout, miri_seed), plans)]
    with tempfile.NamedTemporaryFile('w', suffix='.plan', dir=TARGET, delete=False) as f:
        f.write(''.join(plans))
    try:
        a = ['exec', '--file', f.name]
        if m.kind == 'miri':
            a += ['--miri-seed', str(miri_seed)]
        cmd, env = m.argv(a)
        rc, out, err = run_proc(cmd, env, timeout)
    finally:
        os.unlink(f.name)
    res = [('harness', '', '', '', 'no verdict')] * len(plans)
    got = False
    for l in out.splitlines():
        q = re.match(r'verdict (\d+) (ok|viol|harness) (.*)', l)
        if not q:
            continue
        got = True
        i, k, rest = int(q.group(1)), q.group(2), q.group(3)
        if k == 'ok':
            d, x = rest.split()
            res[i] = ('ok', '', d, x, '')
        elif k == 'viol':
            o, d, msg = rest.split(' ', 2)
            res[i] = ('viol', o, d, '', msg)
        else:
            res[i] = ('harness', '', '', '', rest)
    if m.kind == 'miri' and not got and rc is not None:
        v = miri_verdict(rc, out, err)
        res[0] = (v[0], v[1], '', '', v[2])
    return res


# ---------------------------------------------------------------------------------------------
# minimisation

class PlanText:
    def __init__(self, text):
        self.head, self.sched, self.steps = [], [], []
        for l in text.splitlines():
            if l.startswith('step '):
                self.steps.append(l)
            elif l.startswith('sched '):
                self.sched.append(l)
            elif l == 'end' or not l.strip() or l.startswith('#'):
                continue
            else:
                self.head.append(l)

    def text(self, sched=None, steps=None):
        return '\n'.join(self.head + (self.sched if sched is None else sched)
                         + (self.steps if steps is None else steps) + ['end']) + '\n'


def ddmin(items, test, deadline):
    """test(list of candidate lists) -> index of the first candidate that still fails, or None"""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        cands = []
        for i in range(0, len(items), size):
            cands.append(items[:i] + items[i + size:])
        k = test(cands)
        if k is not None:
            items = cands[k]
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def simpler(step):
    """simpler variants of one step"""
    fs = step.split()
    d = dict(x.split('=', 1) for x in fs[2:] if '=' in x)
    out = []

    def put(k, v):
        g = [x for x in fs if not x.startswith(k + '=')]
        if v is not None:
            g.append('%s=%s' % (k, v))
        out.append(' '.join(g))
    for k in ('al', 'w', 'via', 'arg', 'ds', 'key', 'off', 't', 'dk', 'why'):
        if k in d and not (k == 't' and d[k] == '0'):
            put(k, '0' if k == 't' else None)
    if 'len' in d:
        n = int(d['len'])
        for v in sorted({0, 1, n // 2, n - 32, n - 1}):
            if 0 <= v < n:
                put('len', v or None)
    return out


def minimise(v, budget):
    deadline = time.time() + budget
    cross = v.mach2 is not None
    p = PlanText(v.plan)
    small = M[v.mach].kind == 'miri' or (cross and M[v.mach2].kind == 'miri')
    width = NPROC if small else 200

    def fails(texts):
        for i in range(0, len(texts), width):
            if time.time() > deadline:
                return None
            part = texts[i:i + width]
            r = execute(v.mach, part, timeout=max(20, deadline - time.time()))
            if cross:
                r2 = execute(v.mach2, part, timeout=max(20, deadline - time.time()))
                for j, (a, b) in enumerate(zip(r, r2)):
                    if a[0] == 'ok' and b[0] == 'ok' and a[3] != b[3]:
                        return i + j
            else:
                for j, a in enumerate(r):
                    if a[0] == 'viol' and a[1] == v.oracle:
                        return i + j
        return None

    p.steps = ddmin(p.steps, lambda cs: fails([p.text(steps=c) for c in cs]), deadline)
    if p.sched:
        p.sched = ddmin(p.sched, lambda cs: fails([p.text(sched=c) for c in cs]), deadline)
        p.steps = ddmin(p.steps, lambda cs: fails([p.text(steps=c) for c in cs]), deadline)
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for i in range(len(p.steps)):
            while time.time() < deadline:
                vs = simpler(p.steps[i])
                k = fails([p.text(steps=p.steps[:i] + [s] + p.steps[i + 1:]) for s in vs]) if vs else None
                if k is None:
                    break
                p.steps[i] = vs[k]
                changed = True
        for i in range(len(p.sched)):
            while time.time() < deadline:
                _, s, q = p.sched[i].split()
                vs = ['sched %s %d' % (s, x) for x in sorted({1, int(q) // 2, int(q) - 1}) if 0 < x < int(q)]
                k = fails([p.text(sched=p.sched[:i] + [s2] + p.sched[i + 1:]) for s2 in vs]) if vs else None
                if k is None:
                    break
                p.sched[i] = vs[k]
                changed = True
    v.plan = p.text()


def confirm(v, tries=3):
    """-> (how many of `tries` executions violate, the last verdict)"""
    hits, last = 0, None
    for _ in range(tries):
        r = execute(v.mach, [v.plan])[0]
        if v.mach2:
            r2 = execute(v.mach2, [v.plan])[0]
            if r[0] == 'ok' and r2[0] == 'ok' and r[3] != r2[3]:
                hits += 1
                last = (r[2], 'results on %s and %s differ: %s / %s' % (v.mach, v.mach2, r[3], r2[3]))
        elif r[0] == 'viol' and r[1] == v.oracle:
            hits += 1
            last = (r[2], r[4])
    return hits, last


def write_replay(prop, v, extra):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.replay' % (prop, v.mach, v.seed))
    head = ['# property %s' % prop, '# kind %s' % v.kind, '# machine %s' % v.mach]
    if v.mach2:
        head.append('# machine2 %s' % v.mach2)
    head += ['# seed %s' % v.seed, '# oracle %s' % v.oracle, '# message %s' % v.msg.replace('\n', ' ')]
    head += ['# %s %s' % kv for kv in extra]
    with open(path, 'w') as f:
        f.write('\n'.join(head) + '\n' + (v.plan or ''))
    return path


# ---------------------------------------------------------------------------------------------
# known findings

def known_findings(prop):
    """lines `finding: property=<id> machine=<name|*> oracle=<name> match=<regex>; <description>`"""
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            q = re.match(r'finding: property=(\S+) machine=(\S+) oracle=(\S+) match=(.*?); (.*)', l)
            if q and q.group(1) == prop:
                out.append((q.group(2), q.group(3), re.compile(q.group(4)), q.group(5).strip()))
    except FileNotFoundError:
        pass
    return out


# ---------------------------------------------------------------------------------------------
# the check

def build_all(names):
    todo = {}
    for n in names:
        todo.setdefault(M[n].build_key(), []).append(n)
    errs = []

    def one(ns):
        try:
            M[ns[0]].build()
            for n in ns[1:]:
                M[n].bind(M[ns[0]])
        except NoAnswer as e:
            errs.append(str(e))
    # the interpreter's sysroot builds share a lock: start them first
    order = sorted(todo.values(), key=lambda ns: M[ns[0]].kind != 'miri')
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, order))
    if errs:
        raise NoAnswer(errs[0])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda n: M[n].probe(), names))


FREE = [('x86_64-unknown-linux-gnu', ''), ('x86_64-unknown-linux-gnu', '-C target-feature=+avx2,+sse4.1'),
        ('i686-unknown-linux-gnu', ''), ('aarch64-unknown-linux-gnu', ''),
        ('wasm32-unknown-unknown', '-C target-feature=+simd128'), ('wasm32-unknown-unknown', '')]


def freestanding():
    """final artifacts without std, without a global allocator, that use every operation"""
    def one(i):
        target, flags = FREE[i]
        env = dict(ENV)
        env['RUSTUP_TOOLCHAIN'] = STABLE
        env['RUSTFLAGS'] = flags
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '--target', target, '--manifest-path',
                            os.path.join(HERE, 'freestanding', 'Cargo.toml'), '--target-dir',
                            os.path.join(TARGET, 'freestanding-%d' % i)], env=env, cwd=HERE, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors='replace')
        return p.returncode, p.stdout

    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, range(len(FREE))))
    for (target, flags), (rc, out) in zip(FREE, res):
        if rc and 'no global memory allocator found' in out:
            return 'linking a no_std program for %s %s against the crate (default-features = false) fails: %s' % (
                target, flags, tail_errors(out))
    for (target, flags), (rc, out) in zip(FREE, res):
        if rc:
            raise NoAnswer('cannot build the freestanding program for %s: %s' % (target, tail_errors(out)))
    return None


def giant_plans(prop, seed):
    """one call with more than 2^32 bytes, mapped copy-on-write from the zero page"""
    out = []
    for name, slot, pend in [(n, s, e) for n, s in P[prop].giant for e in (0, 1)]:
        via = 1 if prop == 'C12' and slot % 2 else (2 if prop == 'C12' else 0)
        n = (1 << 32) + 1 if M[name].target != I686 else (1 << 31) - 8192
        n += (seed * 2654435761 + slot * 40503 + pend * 77) % 4096
        # with an empty packet buffer, and with a partly filled one
        pre = (1 + (seed + slot * 7) % 31) * pend
        out.append((name, '\n'.join([
            'hwsim 1', 'prop ' + prop, 'seed %d' % seed, 'threads 0',
            'step new t=0 s=0 o=1 slot=%d key=1,2,3,4' % slot,
            'step append t=1 s=0 o=1 ds=7 len=%d' % pre,
            'step giant t=2 s=0 o=1 len=%d via=%d w=%d' % (n, via, (slot + pend) % 3), 'end']) + '\n'))
    return out


def jobs_for(prop, tier, seed, budget):
    pr = P[prop]
    jobs = []
    for ri, (name, q, t) in enumerate(pr.runs):
        m = M[name]
        n = q if tier == 'quick' else t
        flags = []
        if pr.huge and m.big:
            flags += ['--huge', '2000000', '--hugepm', '40']
        if pr.warm and m.wrapper():
            flags += ['--warm', str(pr.warm)]
        rate = m.rate
        if prop == 'C15' and name.startswith('x64'):
            rate = 45
        if prop == 'C09':
            rate = rate / 3
        chunk = max(1, int(min(n / 8 + 1, rate * (12 if tier == 'quick' else 60))))
        if m.kind == 'miri':
            chunk = max(1, min(8, n // 16))
        base = seed_base(seed, ri)
        for i in range(0, n, chunk):
            jobs.append((name, base + i, min(chunk, n - i), flags, (base + i) % 1000 if m.kind == 'miri' else 0))
    # interleave the machines so that a time limit cuts all of them alike
    jobs.sort(key=lambda j: ((j[1] & ((1 << SPREAD) - 1)) / max(1, next(
        (q if tier == 'quick' else t) for n, q, t in pr.runs if n == j[0])), M[j[0]].kind != 'miri'))
    return jobs


def check(prop, tier, seed):
    pr = P[prop]
    names = [r[0] for r in pr.runs]
    for c in (pr.cross, pr.cross_small):
        if c:
            names += c[0]
    names = list(dict.fromkeys(names))
    log('building for', ', '.join(names))
    os.makedirs(TARGET, exist_ok=True)
    viols, notes = [], []
    fs = None
    if pr.freestanding:
        with ThreadPoolExecutor(1) as ex:
            fut = ex.submit(freestanding)
            build_all(names)
            fs = fut.result()
        if fs:
            viols.append(Violation('freestanding', 0, 'needs-allocator', fs, plan='', kind='freestanding'))
    else:
        build_all(names)
    t_built = time.time() - T0
    budget = {'quick': 420, 'thorough': 3 * 3600}[tier]
    deadline = time.time() + budget
    log('running')
    harness = []
    cut = [0]
    det = {'compared': 0, 'mismatches': 0}

    def work(j):
        name, start, n, flags, ms = j
        left = deadline - time.time()
        if left <= 2:
            cut[0] += n
            return
        r = batch(prop, name, start, n, flags, min(left, 900), miri_seed=ms)
        if r[0] == 'viol':
            viols.append(Violation(name, r[1], r[2], r[3], flags=flags, kind='run'))
            viols[-1].miri_seed = ms
            call_off()
        elif r[0] == 'harness':
            harness.append(r[1])
            call_off()

    def redo(name):
        # the same seeds twice: one seed must be one execution
        n = {'miri': 2}.get(M[name].kind, 8 if M[name].wrapper() else 25)
        if M[name].kind == 'miri' and prop != 'C15' and prop != 'C09':
            return
        start = seed_base(seed, 200)
        fl = ['--huge', '200000', '--hugepm', '40'] if pr.huge and M[name].big else []
        a = batch(prop, name, start, n, fl, 240, digests=True)
        b = batch(prop, name, start, n, fl, 240, digests=True, tally=False)
        for r in (a, b):
            if r[0] == 'viol':
                viols.append(Violation(name, r[1], r[2], r[3], flags=fl))
                call_off()
                return
            if r[0] == 'harness':
                harness.append(r[1])
                call_off()
                return
        if a[0] != 'ok' or b[0] != 'ok':
            return
        for s in a[1]:
            if s in b[1]:
                det['compared'] += 1
                if a[1][s] != b[1][s]:
                    det['mismatches'] += 1
                    if prop not in ('C08', 'C18'):
                        viols.append(Violation(name, s, 'nondeterministic',
                                               'step 0: two executions of one trace give different results', flags=fl,
                                               kind='twice'))
                        call_off()
                        return

    cross = {}

    def crosswork(j):
        grp, name, start, n, flags = j
        if time.time() > deadline:
            return
        r = batch(prop, name, start, n, flags, 600, digests=True)
        if r[0] == 'viol':
            viols.append(Violation(name, r[1], r[2], r[3], flags=flags))
            call_off()
        elif r[0] == 'harness':
            harness.append(r[1])
            call_off()
        elif r[0] == 'ok':
            with TOT.lock:
                for s, d in r[1].items():
                    cross.setdefault((grp, s), {})[name] = d[1]

    tasks = []
    gi = 0
    giants = giant_plans(prop, seed) if pr.giant else []

    def giantwork(j):
        name, text = j
        r = execute(name, [text], timeout=400)[0]
        if r[0] == 'viol':
            viols.append(Violation(name, 'giant', r[1], r[4], plan=text))
            call_off()
        elif r[0] == 'harness' and not STOP.is_set():
            notes.append('giant append not completed: ' + r[4])
        elif r[0] == 'ok':
            with TOT.lock:
                TOT.n['giant_runs'] = TOT.n.get('giant_runs', 0) + 1
    for g in giants:
        tasks.append((giantwork, g))
    for grp, (c, fl) in enumerate([(pr.cross, CROSS), (pr.cross_small, MS)]):
        if not c:
            continue
        ns, q, t = c
        n = q if tier == 'quick' else t
        for name in ns:
            ch = max(1, n // (8 if M[name].kind != 'miri' else 40))
            for i in range(0, n, ch):
                tasks.append((crosswork, (grp, name, seed_base(seed, 210 + grp) + i, min(ch, n - i), fl)))
    for name in dict.fromkeys(r[0] for r in pr.runs):
        if not name.startswith('cpu-') or name.endswith(('Penryn', 'Haswell')):
            tasks.append((redo, name))
    for j in jobs_for(prop, tier, seed, budget):
        tasks.append((work, j))
    # long, slow things first
    tasks.sort(key=lambda t: 0 if t[0] is giantwork else 1 if t[0] is crosswork else 2 if t[0] is redo else 3)

    def go(t):
        if STOP.is_set():
            return
        try:
            t[0](t[1])
        except NoAnswer as e:
            harness.append(str(e))
            call_off()
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(go, tasks))
    t_run = time.time() - T0 - t_built
    compared = 0
    if not viols:
        ref = {0: 'x64', 1: 'x64'}
        for (grp, s), d in sorted(cross.items()):
            base = d.get(ref[grp])
            for name, x in d.items():
                if base is not None and name != ref[grp]:
                    compared += 1
                    if x != base:
                        fl = [CROSS, MS][grp]
                        viols.append(Violation(ref[grp], s, 'machines-disagree',
                                               'step 0: results on %s and %s differ' % (ref[grp], name),
                                               flags=fl, mach2=name, kind='cross'))
                        break
            if viols:
                break
    STOP.clear()
    if not viols and harness:
        raise NoAnswer(harness[0])

    known = known_findings(prop)
    printed = set()
    bad = None
    for v in viols:
        k = next((k for k in known if k[0] in ('*', v.mach) and k[1] == v.oracle and k[2].search(v.msg)), None)
        if k:
            printed.add(k[3])
        else:
            bad = v
            break
    for k in known:
        # on the unchanged tree each listed finding is announced
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]), flush=True)

    rc = 0
    extra_note = ''
    if bad is not None:
        log('violation on %s, seed %s: %s: %s' % (bad.mach, bad.seed, bad.oracle, bad.msg))
        path = settle(prop, bad)
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        print('  oracle %s on machine %s, seed %s' % (bad.oracle, bad.mach, bad.seed))
        print('  %s' % bad.msg)
        rc = 1
    evidence(prop, tier, seed, pr, t_built, t_run, det, compared, cut[0], rc, bad, notes)
    return rc


def settle(prop, v):
    """minimise, confirm, write the replay file"""
    if v.kind == 'freestanding':
        return write_replay(prop, v, [])
    if v.plan is None:
        v.plan = gen(prop, v.mach, v.seed, v.flags)
    original = v.plan
    if v.kind == 'twice':
        return write_replay(prop, v, [('note', 'execute twice and compare')])
    if v.seed == 'giant':
        return write_replay(prop, v, [])
    hits, last = confirm(v, 2)
    if hits == 0:
        # perhaps it depends on what ran before in the same process (warm-up, emulator state)
        hits, last = confirm(v, 6)
        if hits == 0:
            m = M[v.mach]
            r = batch(prop, v.mach, v.seed, 1, v.flags, 120, tally=False, miri_seed=getattr(v, 'miri_seed', 0))
            if r[0] != 'viol':
                raise NoAnswer('a reported violation does not reproduce: %s seed %s: %s' % (v.mach, v.seed, v.msg))
            return write_replay(prop, v, [('reproduces', 'by seed only')])
    slow = M[v.mach].kind == 'miri' or (v.mach2 and M[v.mach2].kind == 'miri')
    try:
        minimise(v, 120 if slow else 75)
    except Exception as e:      # a failing minimisation must not hide the violation
        log('minimisation failed:', e)
        v.plan = original
    hits, last = confirm(v, 3 if not slow else 1)
    if hits == 0:
        v.plan = original
        hits, last = confirm(v, 3 if not slow else 1)
    if last:
        v.msg = last[1]
    return write_replay(prop, v, [('reproduced', '%d of %d executions' % (hits, 3 if not slow else 1)),
                                  ('digest', last[0] if last else '-')])


def replay(prop, path):
    text = open(path).read()
    h = dict(re.findall(r'^# (\S+) (.*)$', text, re.M))
    if h.get('kind') == 'freestanding':
        r = freestanding()
        if r:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  ' + r)
        return 1 if r else 0
    names = [h['machine']] + ([h['machine2']] if 'machine2' in h else [])
    os.makedirs(TARGET, exist_ok=True)
    build_all(names)
    plan = text[text.find('hwsim 1'):]
    r = [execute(n, [plan])[0] for n in names]
    if h.get('kind') == 'twice':
        r.append(execute(names[0], [plan])[0])
    for n, x in zip(names + names, r):
        print('%s: %s' % (n, ' '.join(x)))
    bad = any(x[0] == 'viol' for x in r) or (len(r) > 1 and len({x[3] for x in r}) > 1)
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if any(x[0] == 'harness' for x in r):
        return 2
    return 0


REAL = ('real code: the whole highway crate as compiled for each machine (portable, SSE4.1, AVX2, NEON, wasm simd128 '
        'hashers, HighwayHasher, HighwayBuildHasher, Hasher/io::Write adapters, key, buffering), and the standard '
        'library around it (HashMap, BufWriter, io::copy)')
STUB = ('simulated: clients, network, disk and its corruption, nodes, crashes, clock, thread scheduler (single-step '
        'scheduler on x86_64, Miri\'s seeded scheduler, baton elsewhere), the processor where it is not x86_64 '
        '(qemu-user, V8, Miri) and its CPUID (qemu -cpu), the allocator (counts or fails), memory placement (guard pages)')


def evidence(prop, tier, seed, pr, t_built, t_run, det, compared, cut, rc, bad, notes):
    n = TOT.n
    runs = int(n.get('runs', 0))
    cells = bin(TOT.cov).count('1')
    samples = []
    for name in [r[0] for r in pr.runs][:2]:
        if M[name].kind == 'miri':
            continue
        try:
            fl = ['--huge', '200000', '--hugepm', '40'] if pr.huge and M[name].big else []
            s = gen(prop, name, seed_base(seed, [r[0] for r in pr.runs].index(name)) + 3, fl).splitlines()
            samples.append({'machine': name, 'trace': s[:30], 'steps': sum(1 for l in s if l.startswith('step'))})
        except NoAnswer:
            pass
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': sum(len(s) for s in TOT.sigs.values()),
        'rule': pr.rule + '; counted per machine',
        'samples': samples,
        'machines': {k: {'what': M[k].what, 'runs': int(v), 'process_seconds': round(TOT.wall[k], 1)}
                     for k, v in TOT.per.items()},
        'nontrivial_runs': int(n.get('nontrivial', 0)),
        'processes': int(n.get('processes', 0)),
        'steps_executed': int(n.get('steps', 0)),
        'steps_skipped': int(n.get('skipped', 0)),
        'oracle_checks': int(n.get('checks', 0)),
        'observations': int(n.get('obs', 0)),
        'memory_accesses_checked': int(n.get('watched', 0)),
        'bytes_hashed_once': int(n.get('bytes', 0)),
        'inconclusive_checks': int(n.get('inconclusive', 0)),
        'simulated_seconds': round(n.get('sim_ns', 0) / 1e9, 1),
        'runs_per_hour': int(runs / max(t_run, 0.1) * 3600),
        'seeds_per_hour': int(runs / max(t_run, 0.1) * 3600),
        'faults_injected': dict(sorted(TOT.faults.items())),
        'behaviour_cells_reached': cells,
        'behaviour_cells_rule': 'hash buckets (524288) of (operation, hasher type, pending bytes, size class, route, hops)',
        'instructions_single_stepped': int(n.get('tf_instrs', 0)),
        'hand_overs_inside_operations': int(n.get('tf_switches', 0)),
        'distinct_instruction_interleavings': int(n.get('tf_interleavings', 0)),
        'giant_appends': int(n.get('giant_runs', 0)),
        'determinism': {'seeds_executed_twice': det['compared'], 'mismatches': det['mismatches']},
        'cross_machine_comparisons': compared,
        'runs_not_made_for_lack_of_time': cut,
        'build_s': round(t_built, 1),
        'exploration_s': round(t_run, 1),
        'components': [REAL, STUB],
        'notes': notes,
    }
    if prop == 'C18':
        cov['allocations_inside_library_calls'] = int(n.get('allocs', 0))
        cov['freestanding_program_built'] = rc == 0
    if bad is not None:
        cov['violation'] = {'oracle': bad.oracle, 'machine': bad.mach, 'seed': str(bad.seed), 'message': bad.msg}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
        'assumptions': [
            'a finite seeded sample of an unbounded space: absence of a violation is evidence, not proof',
            'qemu-user, V8 and Miri execute machine code, wasm and MIR as the architectures define them',
            'the compiler in use; other compilers may miscompile',
        ],
        'wall_s': round(time.time() - T0, 1),
        'violations': rc,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def setup():
    for c in (['cargo', '--version'], ['node', '--version'], ['qemu-aarch64', '--version'], ['qemu-x86_64', '--version'],
              ['qemu-i386', '--version']):
        p = subprocess.run(c, env=dict(ENV, RUSTUP_TOOLCHAIN=STABLE), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        print(p.stdout.splitlines()[0] if p.stdout else c)
        if p.returncode:
            return 2
    os.makedirs(TARGET, exist_ok=True)
    build_all(['x64', 'x64-dev', 'x64-nostd', 'x64-nostd-dev', 'arm', 'arm-dev', 'i686', 'i686-dev', 'wasm', 'wasm-dev'])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    try:
        if a.setup:
            return setup()
        if a.prop not in P:
            print('unknown property', a.prop)
            return 2
        if a.replay:
            return replay(a.prop, a.replay)
        return check(a.prop, a.tier, seed)
    except NoAnswer as e:
        print('NO ANSWER: %s' % e, flush=True)
        return 2


if __name__ == '__main__':
    rc = main()
    call_off()
    sys.stdout.flush()
    sys.exit(rc)
