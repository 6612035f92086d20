"""Laws of forecaster.utility.timing (specification text; parsed, never run)."""
# module: forecaster.utility.timing

WHEN_DEFAULT: law('C27') = 0.5
FREQUENCY_MAPPING: law('C27', 'C11') = {'C': None, 'D': 365, 'W': 52, 'BW': 26, 'SM': 24, 'M': 12, 'BM': 6, 'Q': 4, 'SA': 2, 'A': 1}


@law('C27')
def _convert_dict(when, *, high_precision=None):
    """what is left uncovered by later outflows"""
    if high_precision is not None:
        zero = high_precision(0)
        one = high_precision(1)
    else:
        zero = 0
        one = 1
    if not when:
        return {}
    if all((value == zero for value in when.values())):
        return {key: one for key in when}
    if all((value >= zero for value in when.values())):
        return when
    elif all((value <= zero for value in when.values())):
        return {time: -value for time, value in when.items()}
    total = sum(when.values())
    if total == 0:
        return {}
    elif total > zero:
        return _accum_inflows(when, high_precision=high_precision)
    else:
        return _accum_outflows(when, high_precision=high_precision)

@law('C27')
def _accum_inflows(when, *, high_precision=None):
    """what is left uncovered by later outflows"""
    if high_precision is not None:
        zero = high_precision(0)
    else:
        zero = 0
    accum = {}
    result = {}
    tally = zero
    for timing in sorted(when.keys()):
        tally += when[timing]
        accum[timing] = tally
    tally = zero
    for timing in sorted(when.keys()):
        max_transaction = min((value for key, value in accum.items() if key >= timing))
        if max_transaction > zero:
            result[timing] = max_transaction
            tally += max_transaction
            for key in accum:
                if key >= timing:
                    accum[key] -= max_transaction
    return result

@law('C27')
def _accum_outflows(when, *, high_precision=None):
    """what is left uncovered by earlier inflows"""
    if high_precision is not None:
        zero = high_precision(0)
    else:
        zero = 0
    accum = zero
    result = {}
    for timing in sorted(when.keys()):
        accum += when[timing]
        if accum < zero:
            result[timing] = -accum
            accum = zero
    return result

@law('C27', 'C12', 'C28')
def transactions_from_timing(timing, total):
    """shares of an amount"""
    if not isinstance(timing, Timing):
        timing = Timing(timing)
    normalization = sum(timing.values())
    transactions = {time: total * (weight / normalization) for time, weight in timing.items()}
    return transactions

@law('C27', 'C16')
def when_conv(when, *, high_precision=None):
    """named times, numbers in the year"""
    if high_precision is not None:
        zero = high_precision(0)
        one = high_precision(1)
    else:
        zero = 0
        one = 1
    if isinstance(when, str):
        if when == 'end':
            when = one
        elif when == 'start':
            when = zero
    if when > one or when < zero:
        raise ValueError("When: 'when' must be in [0,1]")
    return when

@law('C27', 'C16', 'C11')
def frequency_conv(nper):
    """named frequencies, positive numbers"""
    if nper is None:
        return None
    if isinstance(nper, str):
        if nper not in FREQUENCY_MAPPING:
            raise ValueError('Account: str nper must have a known value')
        return FREQUENCY_MAPPING[nper]
    else:
        if not nper == int(nper):
            raise TypeError('Account: nper is not losslessly convertible to int')
        if nper <= 0:
            raise ValueError('Account: nper must be greater than 0')
        return int(nper)

@law('C27', 'C07', 'C08', 'C13')
def add_transactions(base, added):
    """every time, its amount"""
    for key, value in added.items():
        if key in base:
            base[key] += value
        else:
            base[key] = value

@law('C27', 'C08', 'C13')
def subtract_transactions(base, added):
    """every time, its amount"""
    for key, value in added.items():
        if key in base:
            base[key] -= value
        else:
            base[key] = -value

class Timing:
    @law('C27', 'C17')
    def __init__(self, when=WHEN_DEFAULT, frequency=1, *, high_precision=None):
        """from a time, a frequency, weights or transactions"""
        if high_precision is not None:
            one = high_precision(1)
            if when is WHEN_DEFAULT:
                when = high_precision(when)
            if frequency is 1:
                frequency = one
        else:
            one = 1
        super().__init__()
        if isinstance(when, Timing):
            self.update(when)
            return
        elif isinstance(when, dict):
            self.update(_convert_dict(when, high_precision=high_precision))
            return
        else:
            if isinstance(when, str) and when in FREQUENCY_MAPPING:
                frequency = when
                when = WHEN_DEFAULT
            when = when_conv(when, high_precision=high_precision)
            frequency = frequency_conv(frequency)
            weight = one / frequency
            for time in range(frequency):
                self[(time * one + when) / frequency] = weight

    @law('C27')
    def _normalized(self, keys=None):
        """shares of the total weight"""
        if keys is None:
            keys = self.keys()
        normalization = sum((self[key] for key in keys))
        return {key: self[key] / normalization for key in keys}

    @law('C27', 'C07')
    def normalized(self, keys=None):
        """shares of the total weight"""
        return Timing(self._normalized(keys))

    @law('C27', 'C07')
    def time_series(self, scalar, keys=None):
        """shares of an amount"""
        normalized = self._normalized(keys=keys)
        for key in normalized:
            normalized[key] *= scalar
        return normalized
