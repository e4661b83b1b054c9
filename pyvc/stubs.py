"""Stand-ins for library classes, interpreted by the verifier like the code of the repository (never run)."""
import pyvc


class File(object):
    """a binary file: the fields written so far, or the fields still to be read"""

    def __init__(self, fields, writing):
        self.fields = fields
        self.where = 0
        self.writing = writing
        self.closed = False

    def write(self, data):
        if self.closed or not self.writing:
            raise ValueError()
        self.fields.append(pyvc.token(data))

    def read(self, n):
        if self.closed or self.writing:
            raise ValueError()
        if self.where >= len(self.fields):
            return pyvc.short()
        t = self.fields[self.where]
        self.where = self.where + 1
        return pyvc.field(n, t)

    def close(self):
        self.closed = True
