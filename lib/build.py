"""Builds the harness and the tool from /repo's current working tree.

Objects are compiled in parallel into /verif/.build (ignored by git). An object is reused only when
the preprocessed-input hash (all sources, headers and flags) is unchanged.
"""
import concurrent.futures
import glob
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VFC_REPO', '/repo')
DEPS = '/opt/vp/deps/include'
BUILD = os.path.join(VERIF, '.build')

COMMON = ['-std=c++14', '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-w', '-pthread']
SAN = ['-fsanitize=address,alignment,bounds,object-size,null,shift,integer-divide-by-zero,vla-bound,return',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    'asan': COMMON + SAN,
    'ndebug': COMMON + ['-O2', '-DNDEBUG'],
    'tsan': COMMON + ['-fsanitize=thread'],
    'soft': COMMON + SAN + ['-include', os.path.join(VERIF, 'harness', 'soft.h')],
    # Signed overflow and wild float conversions are not part of any property, and not trapped.
}


class BuildError(Exception):
    pass


def includes():
    gen = os.path.join(BUILD, 'gen')
    os.makedirs(os.path.join(gen, 'VFC'), exist_ok=True)
    export = os.path.join(gen, 'VFC', 'Export.h')
    if not os.path.exists(export):
        with open(export, 'w') as f:
            f.write('#pragma once\n#define VFC_EXPORT\n#define VFC_NO_EXPORT\n')
    return ['-I' + gen, '-I' + REPO + '/lib/include', '-I' + REPO + '/lib/src',
            '-I' + REPO + '/tool', '-isystem', DEPS, '-I' + os.path.join(REPO, 'tool', 'rapidjson', 'include')]


def tree_hash(flags):
    h = hashlib.sha256()
    for root in ('lib/include', 'lib/src', 'tool'):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs.sort()
            if 'test' in d.split('/') or 'rapidjson' in d.split('/'):
                continue
            for f in sorted(files):
                if f.endswith(('.h', '.hpp', '.inl', '.ipp')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    h.update(' '.join(flags).encode())
    return h


def compile_one(src, flags, base, outdir):
    h = base.copy()
    h.update(src.encode())
    with open(src, 'rb') as f:
        h.update(f.read())
    obj = os.path.join(outdir, os.path.basename(src) + '.' + h.hexdigest()[:24] + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + flags + includes() + ['-c', src, '-o', tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError('cannot compile %s:\n%s' % (src, r.stdout.decode(errors='replace')[-4000:]))
        os.rename(tmp, obj)
    return obj


def build(target, variant='asan'):
    """target: 'harness' or 'vfc'. Returns the binary's path."""
    flags = VARIANTS[variant]
    outdir = os.path.join(BUILD, variant)
    os.makedirs(outdir, exist_ok=True)
    base = tree_hash(flags)
    lib = sorted(glob.glob(os.path.join(REPO, 'lib/src/*.cpp')))
    tool = sorted(glob.glob(os.path.join(REPO, 'tool/*.cpp')))
    if target == 'harness':
        srcs = lib + [s for s in tool if os.path.basename(s) != 'main.cpp']
        srcs.append(os.path.join(VERIF, 'harness', 'harness.cpp'))
    else:
        srcs = lib + tool
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags, base, outdir), srcs))
    h = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(outdir, target + '.' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + flags + objs + ['-o', tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError('cannot link:\n' + r.stdout.decode(errors='replace')[-4000:])
        os.rename(tmp, exe)
    return exe


if __name__ == '__main__':
    try:
        for t in sys.argv[2:] or ['harness', 'vfc']:
            print(build(t, sys.argv[1] if len(sys.argv) > 1 else 'asan'))
    except BuildError as e:
        print(e)
        sys.exit(2)
