"""Message classes of the generated protobuf modules, read mechanically from the serialized descriptor
in the *_pb2.py file itself (AddSerializedFile(b'...')) on every run."""
import ast

KIND = {1: 'real', 2: 'real', 3: 'int', 4: 'int', 5: 'int', 6: 'int', 7: 'int', 8: 'bool', 9: 'str', 11: 'msg', 12: 'str', 13: 'int', 14: 'int', 15: 'int', 16: 'int', 17: 'int', 18: 'int'}


def varint(b, i):
    r = s = 0
    while True:
        r |= (b[i] & 127) << s
        s += 7
        i += 1
        if b[i - 1] < 128:
            return r, i


def fields(b):
    """(field number, payload) pairs of one wire message"""
    i = 0
    while i < len(b):
        k, i = varint(b, i)
        if k & 7 == 0:
            v, i = varint(b, i)
        elif k & 7 == 2:
            n, i = varint(b, i)
            v, i = b[i:i + n], i + n
        elif k & 7 == 1:
            v, i = b[i:i + 8], i + 8
        else:
            v, i = b[i:i + 4], i + 4
        yield k >> 3, v


class Field:
    def __init__(self, name, kind, repeated, msg, oneof):
        self.name, self.kind, self.repeated, self.msg, self.oneof = name, kind, repeated, msg, oneof


def messages(tree):
    """{message name: [Field]} of a *_pb2 module"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, 'attr', '') == 'AddSerializedFile' and n.args and isinstance(n.args[0], ast.Constant):
            for k, m in fields(n.args[0].value):
                if k != 4:
                    continue
                name, fs, oneofs = None, [], []
                for k2, x in fields(m):
                    if k2 == 1:
                        name = x.decode()
                    elif k2 == 8:
                        oneofs.append([y.decode() for k3, y in fields(x) if k3 == 1][0])
                    elif k2 == 2:
                        d = dict(fields(x))
                        if d[5] not in KIND:
                            continue
                        fs.append((d[1].decode(), KIND[d[5]], d.get(4) == 3, d[6].decode().split('.')[-1] if 6 in d else None, d.get(9)))
                out[name] = [Field(a, b, c, d, oneofs[e] if e is not None else None) for a, b, c, d, e in fs]
    return out
