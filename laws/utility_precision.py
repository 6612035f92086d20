"""Laws of forecaster.utility.precision (specification text; parsed, never run)."""
# module: forecaster.utility.precision

EPSILON: law('C28') = 1e-05


class HighPrecisionOptionalProperty:
    @law('C17', 'C19')
    def __init__(self):
        """converted values belong to the object"""
        self.public_name = None
        self.private_name = None

    @law('C17', 'C19')
    def __set_name__(self, owner, name):
        """converted values belong to the object"""
        self.public_name = name
        self.private_name = '_' + name

    @law('C17', 'C19')
    def __get__(self, obj, objtype=None, *, high_precision=None):
        """converted values belong to the object"""
        value = getattr(obj, self.private_name)
        if high_precision is None:
            high_precision = getattr(obj, _HIGH_PRECISION_ATTR_NAME)
            if high_precision is None:
                return value
        if value is not None:
            return high_precision(value)
        return value

    @law('C17', 'C19')
    def __set__(self, obj, value):
        """converted values belong to the object"""
        setattr(obj, self.private_name, value)

class HighPrecisionOptionalPropertyCached:
    @law('C17', 'C19')
    def __init__(self):
        """converted values belong to the object"""
        super().__init__()
        self.cache_name = None

    @law('C17', 'C19')
    def __set_name__(self, owner, name):
        """converted values belong to the object"""
        super().__set_name__(owner, name)
        self.cache_name = '_' + name + '_high_precision_cache'

    @law('C17', 'C19')
    def __get__(self, obj, objtype=None, *, high_precision=None):
        """converted values belong to the object"""
        if obj is None:
            return
        if high_precision is None:
            high_precision = getattr(obj, _HIGH_PRECISION_ATTR_NAME)
            if high_precision is None:
                return getattr(obj, self.private_name)
        cache = getattr(obj, self.cache_name, None)
        if cache is not None and cache[0] == high_precision:
            return cache[1]
        value = super().__get__(obj, objtype=objtype, high_precision=high_precision)
        if value is not None:
            setattr(obj, self.cache_name, (high_precision, value))
        return value

    @law('C17', 'C19')
    def __set__(self, obj, value):
        """converted values belong to the object"""
        super().__set__(obj, value)
        setattr(obj, self.cache_name, None)

class HighPrecisionOptional:
    @law('C17', 'C19')
    def __init__(self, *, high_precision=None, **kwargs):
        """converted values belong to the object"""
        super().__init__(**kwargs)
        self.high_precision = high_precision

    @law('C17', 'C19')
    def precision_convert(self, value):
        """converted values belong to the object"""
        if self.high_precision is not None:
            return self.high_precision(value)
        return value
