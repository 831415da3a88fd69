"""Files that fail and processes that die in the middle of writing them (see fsfault.c)."""
import os, subprocess
from .proj import ToolError, scratch

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fsfault.c')
ERRNO = {'ENOSPC': 28, 'EACCES': 13, 'EIO': 5, 'EROFS': 30}


def shim():
    """compiled once per check, before the workers start"""
    so = os.path.join(scratch(), 'fsfault.so')
    if not os.path.exists(so):
        p = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so + '.tmp', SRC, '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise ToolError('fsfault.c: ' + p.stdout.decode(errors='replace'))
        os.rename(so + '.tmp', so)
    return so


def env(root, log, at=None, mode=None, err='ENOSPC'):
    e = {'PV_FS_ROOT': root, 'PV_FS_LOG': log}
    if mode:
        e.update(PV_FS_AT=str(at), PV_FS_MODE=mode, PV_FS_ERRNO=str(ERRNO[err]))
    return e
