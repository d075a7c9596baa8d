"""Stand-in for a file opened for reading: what is read is determined by name, position, type and count."""
import os

class BinFile:
    def __init__(self, name):
        self.name = name
        self.pos = 0

    def seek(self, off, whence=0):
        if whence == 1:
            self.pos = self.pos + off
        elif whence == 2:
            self.pos = os.path.getsize(self.name) + off
        else:
            self.pos = off

    def tell(self):
        return self.pos

    def read(self, n):
        p = self.pos
        self.pos = p + n
        return os.pread(self.name, n, p)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        pass

class Head:
    """Header of a snapshot file (see Heads in checks/files.py)"""
    pass
