"""Laws of forecaster.value_reader (specification text; parsed, never run)."""
# module: forecaster.value_reader

import os
import json
from copy import deepcopy
from forecaster.utility.precision import HighPrecisionOptional

INFINITY: law('C26') = float('inf')
DIR_PATH: law('C26') = os.path.dirname(__file__)
DATA_PATH: law('C26') = os.path.join(DIR_PATH, 'data/')

@law('C26')
def resolve_path(filename):
    """file, then defaults; numbers converted"""
    if not os.path.isabs(filename):
        filename = os.path.join(DATA_PATH, filename)
    return filename

class ValueReaderAttribute:
    @law('C26')
    def __init__(self, default=None):
        """file, then defaults; numbers converted"""
        self.default = default
        self.name = None

    @law('C26')
    def __set_name__(self, owner, name):
        """file, then defaults; numbers converted"""
        self.name = name

    @law('C26', 'C19')
    def __get__(self, obj, objtype=None):
        """the object's own value, else the default"""
        if self.name not in obj.values and self.default is not None and hasattr(obj, 'use_defaults') and obj.use_defaults:
            defaults = obj.__dict__.setdefault('_defaults', {})
            if self.name not in defaults:
                defaults[self.name] = deepcopy(self.default)
            return defaults[self.name]
        return obj.values[self.name]

    @law('C26', 'C19')
    def __set__(self, obj, value):
        """on that object only"""
        obj.values[self.name] = value

    @law('C26')
    def __delete__(self, obj):
        """file, then defaults; numbers converted"""
        del obj.values[self.name]

class HighPrecisionJSONEncoder:
    @law('C26', 'C17')
    def __init__(self, *args, high_precision=None, high_precision_serialize=None, numeric_convert=True, **kwargs):
        """its own numeric type"""
        super().__init__(*args, **kwargs)
        self.high_precision_type = None
        self.high_precision_serialize = None
        if high_precision is not None:
            self.high_precision_type = type(high_precision(0))
            if high_precision_serialize is None:
                if numeric_convert:

                    def high_precision_serialize(val):
                        return str(val)
                else:

                    def high_precision_serialize(val):
                        return float(val)
            self.high_precision_serialize = high_precision_serialize

    @law('C26', 'C17')
    def default(self, o):
        """its own numeric type"""
        if self.high_precision_type is not None and isinstance(o, self.high_precision_type):
            return self.high_precision_serialize(o)
        else:
            super().default(o)

class ValueReader:
    @law('C26', 'C17', 'C19')
    def __init__(self, filename=None, *, encoder_cls=None, decoder_cls=None, high_precision=None, high_precision_serialize=None, numeric_convert=True, use_defaults=True):
        """own values"""
        super().__init__(high_precision=high_precision)
        self.high_precision_serialize = high_precision_serialize
        self.values = {}
        self.encoder_cls = encoder_cls
        self.decoder_cls = decoder_cls
        self.use_defaults = use_defaults
        if filename is not None:
            self.read(filename, numeric_convert=numeric_convert)

    @law('C26')
    def read(self, filename, *, numeric_convert=True):
        """file, then defaults; numbers converted"""
        self.values.clear()
        filename = resolve_path(filename)
        with open(filename, 'rt', encoding='utf-8') as file:
            self.values = json.load(file, cls=self.decoder_cls, parse_float=self._parse_float, parse_constant=self._parse_constant)
        if numeric_convert:
            self.values = self._numeric_convert(self.values)
        if not isinstance(self.values, dict):
            raise TypeError('JSON file must provide dict of key: value pairs')

    @law('C26')
    def _parse_float(self, val):
        """file, then defaults; numbers converted"""
        if self.high_precision is not None:
            try:
                return self.high_precision(val)
            except:
                fval = float(val)
                return self.high_precision(fval)
        return float(val)

    @law('C26')
    def _parse_constant(self, val):
        """file, then defaults; numbers converted"""
        inf = INFINITY
        if self.high_precision is not None:
            inf = self.high_precision(inf)
        if val == 'Infinity':
            return inf
        if val == '-Infinity':
            return -inf
        raise ValueError("'" + val + "' value not supported.")

    @law('C26')
    def _numeric_convert(self, vals):
        """file, then defaults; numbers converted"""
        if isinstance(vals, dict):
            return {self._numeric_convert(key): self._numeric_convert(val) for key, val in vals.items()}
        if isinstance(vals, list):
            return [self._numeric_convert(val) for val in vals]
        if not isinstance(vals, str):
            return vals
        try:
            float_val = float(vals)
        except ValueError:
            return vals
        if float_val % 1 == 0:
            return int(float_val)
        if self.high_precision is not None:
            return self.high_precision(vals)
        return float_val

    @law('C26')
    def write(self, filename, vals=None):
        """file, then defaults; numbers converted"""
        if vals is None:
            vals = self.values
        filename = resolve_path(filename)
        encoder_args = {'ensure_ascii': True, 'allow_nan': True, 'indent': 2, 'sort_keys': True}
        cls = self.encoder_cls
        if cls is None:
            cls = HighPrecisionJSONEncoder
            encoder_args['high_precision'] = self.high_precision
            encoder_args['high_precision_serialize'] = self.high_precision_serialize
        with open(filename, 'w', encoding='utf-8') as file:
            json.dump(vals, file, cls=cls, **encoder_args)
