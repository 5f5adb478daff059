"""Seam for uninitialised memory: what `np.empty` and the like contain is chosen by the simulator, not by the heap's past.

numpy's data allocator is redirected to one that fills new arrays with a word of the simulated process's choice. Caller,
workers and references get different words, so a result that depends on memory nobody wrote differs between them.
"""
import ctypes
import hashlib
import os
import shutil
import struct
import subprocess
import tempfile

_lib = None
why = None


def install():
    """Compile and install the allocator. Without a C compiler only numpy.empty and numpy.empty_like are covered."""
    global _lib, why
    import numpy as np

    d = tempfile.mkdtemp(prefix="dst-mem-")
    try:
        so = os.path.join(d, "memory.so")
        src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "memory.c")
        cc = shutil.which("gcc") or shutil.which("cc") or shutil.which("clang")
        if cc is None:
            raise OSError("no C compiler")
        subprocess.run([cc, "-O2", "-shared", "-fPIC", "-w", "-o", so, src], check=True, capture_output=True, timeout=120)
        lib = ctypes.CDLL(so)
        from numpy._core import _multiarray_umath as m

        ctypes.pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p
        ctypes.pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        table = ctypes.cast(ctypes.pythonapi.PyCapsule_GetPointer(m._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
        get_handler = ctypes.PYFUNCTYPE(ctypes.py_object)(table[305])
        ptr = ctypes.pythonapi.PyCapsule_GetPointer(get_handler(), b"mem_handler")
        if lib.dst_install(ctypes.c_void_p(ptr)) != 0:
            raise OSError("numpy's data allocator is not the default one")
        _lib = lib
    except Exception as e:
        why = f"{type(e).__name__}: {e}"
        _wrap(np)
    finally:
        shutil.rmtree(d, ignore_errors=True)


_word = None


def _wrap(np):
    def wrapped(fn):
        def empty(*a, **k):
            x = fn(*a, **k)
            if _word is not None and x.dtype.kind in "fiucb" and x.flags.c_contiguous and x.nbytes:
                raw = x.reshape(-1).view(np.uint8)
                raw[:] = np.resize(np.frombuffer(_word, np.uint8), raw.size)
            return x

        empty.__name__ = fn.__name__
        return empty

    np.empty, np.empty_like = wrapped(np.empty), wrapped(np.empty_like)


def word(key):
    """Eight bytes for a process: mostly an ordinary number, sometimes a huge one, a tiny one or none at all (NaN)."""
    h = hashlib.sha256(("memory/" + key).encode()).digest()
    kind = h[0] % 8
    x = int.from_bytes(h[1:5], "big") / 2**32
    v = {0: 1e300 * (x + 0.5), 1: float("nan"), 2: 1e-290 * (x + 0.5)}.get(kind, (x - 0.5) * 8)
    return struct.pack("<d", v)


def use(key):
    """From now on new arrays of this process contain the word of `key`; None: whatever the heap holds."""
    global _word
    _word = None if key is None else word(key)
    if _lib is not None:
        if key is not None:
            ctypes.c_uint64.in_dll(_lib, "dst_word").value = int.from_bytes(_word, "little")
        ctypes.c_int.in_dll(_lib, "dst_on").value = 0 if key is None else 1


def filled():
    return 0 if _lib is None else ctypes.c_uint64.in_dll(_lib, "dst_filled").value
