"""Poison fresh NumPy memory (applies to the calling thread's context)."""

import ctypes
import os
import subprocess

import numpy as np

from mc import env

_setter = None
_capsule = None

def build():
    """Compile allocator and look up PyDataMem_SetHandler (once)."""

    global _setter, _capsule

    if _setter is not None:
        return bool(_setter)

    lib = os.path.join(env.SCRATCH, 'poison%d.so' % os.getpid())

    try:
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', lib,
            os.path.join(env.VERIF, 'mc', 'poison.c')], check=True,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

        so = ctypes.CDLL(lib)
        build.so = so

        api = ctypes.pythonapi
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p,
            ctypes.c_void_p]

        table = ctypes.cast(api.PyCapsule_GetPointer(
            np._core._multiarray_umath._ARRAY_API, None),
            ctypes.POINTER(ctypes.c_void_p))

        # NumPy C API (stable ABI): 304 = PyDataMem_SetHandler
        _setter = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(
            table[304])

        _capsule = api.PyCapsule_New(ctypes.addressof(
            ctypes.c_char.in_dll(so, 'handler')), b'mem_handler', None)

        build.name = b'mem_handler'
    except Exception:
        _setter = False

    return bool(_setter)

def on():
    """Poison fresh memory in current thread. Return whether this works."""

    if not build():
        return False

    _setter(_capsule)

    a = np.empty(7)

    return a.tobytes() == b'\x7f' * 56
