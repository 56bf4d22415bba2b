"""shutil.copyfile() and friends over checks.shim_fs"""
from checks import shim_fs, shim_os_path


class SameFileError(OSError):
    pass


def copyfile(src, dst, *, follow_symlinks=True):
    n = shim_fs.node(src, "file")
    if shim_fs._lookup(dst) is n:
        raise SameFileError("are the same file")
    data = n.data
    h = shim_fs.open(dst, "w")
    h._n.data = data
    return dst


def copy(src, dst, *, follow_symlinks=True):
    if shim_os_path.isdir(dst):
        dst = shim_os_path.join(dst, shim_os_path.basename(src))
    copyfile(src, dst)
    return dst


copy2 = copy
