class Type:
    def __init__(self, *a, **k):
        pass

    def __getitem__(self, i):
        return self


class Integer(Type):
    pass


class Boolean(Type):
    pass


class Float(Type):
    pass


class NoneType(Type):
    pass


class Omitted(Type):
    pass


class Optional(Type):
    def __init__(self, type):
        self.type = type


class Array(Type):
    def __init__(self, dtype=None, ndim=1, layout="C"):
        self.dtype, self.ndim, self.layout = dtype, ndim, layout


class UniTuple(Type):
    pass


class Tuple(Type):
    pass


class Literal(Type):
    pass


class IntegerLiteral(Integer):
    def __init__(self, value=0):
        self.literal_value = value


class StringLiteral(Literal):
    pass


class UnicodeType(Type):
    pass


none = NoneType()
intp = int64 = int32 = uint64 = Integer()
boolean = bool_ = Boolean()
float64 = float32 = Float()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return type(name, (Type,), {})
