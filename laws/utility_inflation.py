"""Laws of forecaster.utility.inflation (specification text; parsed, never run)."""
# module: forecaster.utility.inflation

import collections

@law('C18', 'C24')
def nearest_year(vals, year):
    """the nearest earlier year, else the nearest later"""
    if vals == {}:
        return None
    if year in vals:
        return year
    key = max((k for k in vals if k < year), default=None)
    if key is None:
        key = min((k for k in vals if k > year), default=None)
    return key

@law('C18', 'C24')
def extend_inflation_adjusted(vals, inflation_adjust, target_year):
    """from the nearest year to the wanted one"""
    if target_year in vals:
        return vals[target_year]
    base_year = nearest_year(vals, target_year)
    if base_year != target_year:
        val = vals[base_year]
        if isinstance(val, dict):
            return {k: val[k] * inflation_adjust(target_year, base_year) for k in val}
        elif isinstance(val, collections.abc.Iterable):
            return type(val)((v * inflation_adjust(target_year, base_year) for v in val))
        else:
            return val * inflation_adjust(target_year, base_year)
    else:
        raise ValueError('inflation_adjust: No year is in both vals and ' + 'inflation_adjustment')

@law('C18', 'C16')
def build_inflation_adjust(inflation_adjust=None):
    """whatever can adjust"""
    if inflation_adjust is None:

        def inflation_adjust_func(target_year=None, base_year=None):
            return 1
    elif isinstance(inflation_adjust, dict):
        default_base = min(inflation_adjust.keys())

        def inflation_adjust_func(target_year, base_year=None):
            if base_year is None:
                base_year = default_base
            return inflation_adjust[target_year] / inflation_adjust[base_year]
    elif not callable(inflation_adjust):
        raise TypeError('RegisteredAccount: inflation_adjust must be callable.')
    else:
        inflation_adjust_func = inflation_adjust
    return inflation_adjust_func
