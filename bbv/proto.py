"""A stand-in for protobuf messages that can hold symbolic integers, driven by the
descriptors of the real message classes (io_pb2): field names, types, ranges,
oneofs and presence are the real ones."""

_RANGE = {}


def _ranges(F):
    if not _RANGE:
        for t in (F.TYPE_INT32, F.TYPE_SINT32, F.TYPE_SFIXED32):
            _RANGE[t] = (-2**31, 2**31 - 1)
        for t in (F.TYPE_INT64, F.TYPE_SINT64, F.TYPE_SFIXED64):
            _RANGE[t] = (-2**63, 2**63 - 1)
        for t in (F.TYPE_UINT32, F.TYPE_FIXED32):
            _RANGE[t] = (0, 2**32 - 1)
        for t in (F.TYPE_UINT64, F.TYPE_FIXED64):
            _RANGE[t] = (0, 2**64 - 1)
    return _RANGE


def _sym(x):
    return type(x).__name__ in ("SymInt", "SymBool")


class Rep(list):
    def __init__(self, m, f):
        self._m, self._f = m, f

    def add(self, **k):
        x = Fake(self._f.message_type)
        for n, v in k.items():
            setattr(x, n, v)
        list.append(self, x)
        self._m._touch(self._f)
        return x

    def append(self, v):
        list.append(self, _conv(self._f, v))
        self._m._touch(self._f)

    def extend(self, vs):
        for v in vs:
            self.append(v)


def _conv(f, v):
    F = type(f)
    t = f.type
    if t in _ranges(f):
        lo, hi = _RANGE[t]
        if type(v).__name__ == "SymBool":
            v = v._i()
        if _sym(v):
            if (v < lo) | (v > hi):
                raise ValueError("Value out of range")
            return v
        if isinstance(v, bool):
            v = int(v)
        if not isinstance(v, int):
            if hasattr(v, "__index__"):
                v = v.__index__()
            else:
                raise TypeError("%r has type %s, but expected one of: int" % (v, type(v)))
        if not lo <= v <= hi:
            raise ValueError("Value out of range: %d" % v)
        return v
    if t == f.TYPE_BOOL:
        if type(v).__name__ == "SymInt":
            return v != 0
        if _sym(v):
            return v
        if not isinstance(v, (bool, int)):
            raise TypeError("%r has type %s, but expected one of: bool, int" % (v, type(v)))
        return bool(v)
    if t == f.TYPE_ENUM:
        if not _sym(v) and not isinstance(v, int):
            raise TypeError("%r is not an enum value" % (v,))
        return v
    if t in (f.TYPE_FLOAT, f.TYPE_DOUBLE):
        return v
    if t == f.TYPE_STRING:
        if not isinstance(v, str):
            raise TypeError("%r is not a string" % (v,))
        return v
    if t == f.TYPE_BYTES:
        if not isinstance(v, (bytes, bytearray)):
            raise TypeError("%r is not bytes" % (v,))
        return v
    raise AttributeError("Assignment not allowed to field %s" % f.name)


def _default(f):
    if f.type == f.TYPE_BOOL:
        return False
    if f.type == f.TYPE_STRING:
        return ""
    if f.type == f.TYPE_BYTES:
        return b""
    if f.type in (f.TYPE_FLOAT, f.TYPE_DOUBLE):
        return 0.0
    return 0


class Fake:
    def __init__(self, desc, parent=None, field=None):
        d = self.__dict__
        d["DESCRIPTOR"], d["_parent"], d["_field"] = desc, parent, field
        d["_v"], d["_sub"], d["_present"], d["_one"] = {}, {}, set(), {}

    def _f(self, k):
        f = self.DESCRIPTOR.fields_by_name.get(k)
        if f is None:
            raise AttributeError(k)
        return f

    def _touch(self, f):
        o = f.containing_oneof
        if o is not None:
            old = self._one.get(o.name)
            if old is not None and old != f.name:
                self._drop(old)
            self._one[o.name] = f.name
        self._present.add(f.name)
        if self._parent is not None:
            self._parent._touch(self._field)

    def _drop(self, n):
        self._v.pop(n, None)
        s = self._sub.pop(n, None)
        if isinstance(s, Fake):
            s.__dict__["_parent"] = None    # detached, as in protobuf
        self._present.discard(n)

    def __getattr__(self, k):
        f = self._f(k)
        if f.is_repeated:
            if k not in self._sub:
                self._sub[k] = Rep(self, f)
            return self._sub[k]
        if f.message_type is not None:
            if k not in self._sub:
                self._sub[k] = Fake(f.message_type, self, f)
            return self._sub[k]
        return self._v[k] if k in self._v else _default(f)

    def __setattr__(self, k, v):
        f = self._f(k)
        if f.message_type is not None or f.is_repeated:
            raise AttributeError("Assignment not allowed to composite field %s" % k)
        v = _conv(f, v)
        self._touch(f)
        self._v[k] = v

    def HasField(self, k):
        f = self._f(k)
        if f.is_repeated or f.message_type is None and f.containing_oneof is None:
            raise ValueError("no presence for %s" % k)
        return k in self._present

    def WhichOneof(self, n):
        if n not in self.DESCRIPTOR.oneofs_by_name:
            raise ValueError(n)
        return self._one.get(n)

    def ClearField(self, k):
        f = self._f(k)
        self._drop(k)
        if f.containing_oneof is not None and self._one.get(f.containing_oneof.name) == k:
            del self._one[f.containing_oneof.name]

    def Clear(self):
        for k in list(self._sub) + list(self._v):
            self._drop(k)
        self._present.clear()
        self._one.clear()
        if self._parent is not None:
            self._parent._touch(self._field)

    def SetInParent(self):
        if self._parent is not None:
            self._parent._touch(self._field)

    def CopyFrom(self, o):
        self.Clear()
        self.MergeFrom(o)

    def MergeFrom(self, o):
        for k, v in o._v.items():
            setattr(self, k, v)
        for k, s in o._sub.items():
            if isinstance(s, Rep):
                for x in s:
                    if isinstance(x, Fake):
                        getattr(self, k).add().MergeFrom(x)
                    else:
                        getattr(self, k).append(x)
            elif k in o._present:
                getattr(self, k).SetInParent()
                getattr(self, k).MergeFrom(s)


def message(ctx, cls):
    """A message of real class `cls`: real in concrete mode, stand-in otherwise."""
    return Fake(cls.DESCRIPTOR) if ctx.symbolic else cls()


class Hex(str):
    """hex() of a symbolic integer."""

    def __new__(cls, v):
        r = str.__new__(cls, "0x?")
        r.v = v
        return r

    def _bbv_int(self, base=10):
        if base not in (0, 16):
            raise ValueError("not base 16")
        return self.v


def hex_(x):
    return Hex(x) if type(x).__name__ == "SymInt" else hex(x)
