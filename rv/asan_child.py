"""Runs cases with the C++ code of the library compiled with sanitizers, in an interpreter whose heap is AddressSanitizer's:
bounds of every heap block, use after free, and fresh and freed memory full of a given byte."""
import os, sys, json, importlib
os.environ.pop('LD_PRELOAD')                    # not for compilers
real = os.fdopen(os.dup(1), 'w', buffering=1)
os.dup2(2, 1)
import dolfin as df

FLAGS = ['-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer',
         '-g1', '-O1', '-UNDEBUG', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']
# numpy hands out small arrays from a cache of its own
import numpy as np
BYTE = int(os.environ['ASAN_OPTIONS'].split('malloc_fill_byte=')[1].split(':')[0])


def filled(make):
    def wrapper(*args, **kwargs):
        a = make(*args, **kwargs)
        if not a.dtype.hasobject and a.size and a.flags.c_contiguous:
            a.reshape(-1).view('u1')[:] = BYTE
        return a
    return wrapper


np.empty, np.empty_like = filled(np.empty), filled(np.empty_like)
compiled = []
compile_cpp_code = df.compile_cpp_code


def sanitized(code, **kwargs):
    compiled.append(1)
    return compile_cpp_code(code + '\n// sanitized\n', cppargs=FLAGS)


df.compile_cpp_code = sanitized
import warnings
warnings.filterwarnings('ignore')
import core
core.quiet()
core.one_builder()
import dolfin.jit.pybind11jit
if hasattr(dolfin.jit.pybind11jit, 'compile_cpp_code'):
    dolfin.jit.pybind11jit.compile_cpp_code = sanitized

for prop, seed, number in json.loads(sys.argv[1]):
    mod = importlib.import_module('checks.' + prop)
    todo = mod.cases('quick', seed) if prop != 'P27' else mod.inner_cases()
    number %= len(todo)
    rec = core.Recorder(prop, seed, number)
    print('@RV-CASE %s %d %d %s' % (prop, seed, number, todo[number]), file=sys.stderr, flush=True)
    if prop == 'P27':
        rec.run(mod.inner, todo[number])
    else:
        rec.run(mod.run, todo[number])
    real.write('@RV ' + json.dumps(dict(rec.report(), prop=prop, seed=seed, compiled=len(compiled)), default=str) + '\n')
    real.flush()
os._exit(0)
