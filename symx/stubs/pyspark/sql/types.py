class _T:
    def __init__(self, *a, **k):
        self.args = a

    def __repr__(self):
        return f'{type(self).__name__}{self.args}'


class StructField(_T):
    def __init__(self, name, dataType=None, nullable=True, metadata=None):
        self.args = (name, dataType, nullable)
        self.name, self.dataType, self.nullable = name, dataType, nullable


class StructType(_T):
    def __init__(self, fields=None):
        self.fields = list(fields or [])
        self.args = (self.fields,)

    def add(self, field, data_type=None, nullable=True):
        self.fields.append(field if isinstance(field, StructField) else StructField(field, data_type, nullable))
        return self

    @property
    def names(self):
        return [f.name for f in self.fields]

    def fieldNames(self):
        return self.names

    def __iter__(self):
        return iter(self.fields)

    def __len__(self):
        return len(self.fields)


class LongType(_T):
    pass


class IntegerType(_T):
    pass


class StringType(_T):
    pass


class ArrayType(_T):
    pass


class BooleanType(_T):
    pass


class DoubleType(_T):
    pass


class FloatType(_T):
    pass


class ShortType(_T):
    pass


class MapType(_T):
    pass


class BinaryType(_T):
    pass
