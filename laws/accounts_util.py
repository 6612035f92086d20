"""Laws of forecaster.accounts.util (specification text; parsed, never run)."""
# module: forecaster.accounts.util

import math
from collections import namedtuple
from forecaster.utility import when_conv

FIELDS: law('C28', 'C12') = ['min_inflow', 'max_inflow', 'min_outflow', 'max_outflow']
LimitTuple: law('C28', 'C13') = namedtuple('LimitTuple', FIELDS, defaults=(None,) * len(FIELDS))
IDENTITY_FUNCTION: law('C28') = lambda x: x
LIMIT_TUPLE_FIELDS: law('C28') = LimitTuple(*FIELDS)

@law('C11')
def accumulation_function(t, rate, nper=1, *, high_precision=None):
    """the compounding law"""
    if high_precision is not None:
        one = high_precision(1)
        if nper == 1 and isinstance(nper, int):
            nper = one
    else:
        one = 1
    if nper is None:
        if high_precision is not None:
            exp = high_precision(math.e)
        else:
            exp = math.e
        acc = exp ** (rate * t)
    else:
        acc = (one + rate / nper) ** (nper * t)
    return acc

@law('C11')
def accumulation_function_inverse(accum, rate, nper=1, *, high_precision=None):
    """its inverse"""
    if accum < 0:
        raise ValueError('accum must be positive.')
    if high_precision is None:
        high_precision = IDENTITY_FUNCTION
    if rate == 0:
        if accum == 1:
            return high_precision(0)
        elif accum < 1:
            return high_precision(float('-inf'))
        else:
            return high_precision(float('inf'))
    if nper is None:
        timing = math.log(accum, high_precision(math.e)) / rate
    else:
        timing = math.log(accum, high_precision(1) + rate / nper) / nper
    return timing

@law('C11', 'C12')
def value_at_time(value, rate, now='start', time='end', nper=1, *, high_precision=None):
    """growth from the transaction's time to the time asked about"""
    return value * accumulation_function(when_conv(time, high_precision=high_precision) - when_conv(now, high_precision=high_precision), rate, nper, high_precision=high_precision)

@law('C11')
def time_to_value(rate, value_now, value_then, nper=1, *, high_precision=None):
    """the time needed for a value to become another"""
    return accumulation_function_inverse(accum=value_then / value_now, rate=rate, nper=nper, high_precision=high_precision)
