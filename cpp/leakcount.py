"""Heap bytes (address sanitizer's count) that repeating a call leaves behind."""
import ctypes, gc
count = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
count.restype = ctypes.c_size_t


def growth(f, warm=2, n=4, rounds=400):
    """bytes per call that stay allocated, 0 as soon as a round of n calls left less than one byte per call (the caches of the interpreter and of numpy fill, they do not keep growing)"""
    gc.collect()
    gc.freeze()                # collect only what the calls below create
    for _ in range(warm):
        f()
    low = None
    for _ in range(rounds):
        gc.collect()
        a = count()
        for _ in range(n):
            f()
        gc.collect()
        g = count() - a
        low = g if low is None else min(low, g)
        if low < n:
            return 0
    return low / n
