"""Runs a function in a forked child in which the n-th file operation fails, ends the process or comes with a Ctrl-C (lib/preload.c)."""
import ctypes
import errno
import mmap
import os
import signal
import struct

from harness import HarnessError

OFF, COUNT, KILL, FAIL, FULL, INTERRUPT = range(6)
MODES = {KILL: 'process ends', FAIL: 'operation fails', FULL: 'drive full', INTERRUPT: 'Ctrl-C'}
_lib = ctypes.CDLL(None)


def var(kind, name):
    try:
        return kind.in_dll(_lib, name)
    except ValueError:
        raise HarnessError('lib/preload.c is not loaded')


def run(fn, mode=COUNT, n=0):
    """Outcome: ('ended' | 'returned' | 'raised', text), number of file operations, whether one failed."""
    vmode, left, count, fired, err = (var(ctypes.c_int, 'vp_mode'), var(ctypes.c_long, 'vp_left'),
                                      var(ctypes.c_long, 'vp_count'), var(ctypes.c_long, 'vp_fired'),
                                      var(ctypes.c_int, 'vp_errno'))
    shared = mmap.mmap(-1, 4096)
    pid = os.fork()
    if not pid:
        code = 1
        try:
            signal.alarm(60)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            text = ''
            left.value, count.value, fired.value = n, 0, 0
            err.value = errno.ENOSPC if mode == FULL else errno.EIO
            vmode.value = mode
            try:
                fn()
                code = 10
            except (Exception, KeyboardInterrupt) as e:
                vmode.value = OFF
                code = 11
                text = f'{type(e).__name__}: {e}'
            vmode.value = OFF
            data = text.encode('utf-8', 'replace')[:3000]
            shared[:16 + len(data)] = struct.pack('qii', count.value, fired.value, len(data)) + data
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    number, fired, size = struct.unpack('qii', shared[:16])
    text = shared[16:16 + size].decode()
    shared.close()
    code = os.waitstatus_to_exitcode(status)
    if code == 77 and mode == KILL:
        return 'ended', number, True, ''
    if code not in (10, 11):
        raise HarnessError(f'child ended with {code}')
    return {10: 'returned', 11: 'raised'}[code], number, bool(fired), text
