"""Bounds for what a program under test may use up: a broken one must not end the check (or the machine) with it."""

def capped(cmd, memory_gb=4, file_mb=None):
    """the command with a limit on its address space and, optionally, on the size of files it writes"""
    sh = "ulimit -v %d; ulimit -n 1024 2>/dev/null; " % (memory_gb << 20)     # as many files as are usual
    if file_mb: sh += "ulimit -f %d; " % (file_mb * 2048)      # in blocks of 512 bytes
    return ["/bin/sh", "-c", sh + 'exec "$@"', "sh"] + list(cmd)
