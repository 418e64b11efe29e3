"""Giving up privileges before code that deletes or overwrites files is executed."""
import os

NOBODY = 65534


def give(path):
    """Make a scratch directory (and what is in it) usable after drop()."""
    if os.getuid() == 0:
        up = os.path.dirname(os.path.abspath(path))
        if os.stat(up).st_uid == 0 and not os.stat(up).st_mode & 0o001:
            os.chmod(up, os.stat(up).st_mode & 0o7777 | 0o011)
        os.chown(path, NOBODY, NOBODY)
        for d, ds, fs in os.walk(path):
            for x in ds + fs:
                os.lchown(os.path.join(d, x), NOBODY, NOBODY)


def drop():
    """From now on only scratch files can be changed (for forked children)."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)
