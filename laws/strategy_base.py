"""Laws of forecaster.strategy.base (specification text; parsed, never run)."""
# module: forecaster.strategy.base

import inspect
from forecaster.utility.precision import HighPrecisionOptional

@law('C22')
def strategy_method(key):
    """a method is registered under its key"""

    def decorator(function):
        function.strategy_key = key
        return function
    return decorator

class StrategyType:
    @law('C22')
    def __init__(cls, *args, **kwargs):
        """every registered method, inherited ones included"""
        super().__init__(*args, **kwargs)
        cls.strategies = {s[1].strategy_key: s[1] for s in inspect.getmembers(cls, lambda x: hasattr(x, 'strategy_key'))}

class Strategy:
    @law('C22', 'C16', 'C17')
    def __init__(self, strategy, *, high_precision=None, **kwargs):
        """the named strategy must exist"""
        super().__init__(high_precision=high_precision, **kwargs)
        if not isinstance(strategy, str) and hasattr(strategy, 'strategy_key'):
            strategy = strategy.strategy_key
        self.strategy = strategy
        if not isinstance(self.strategy, str):
            raise TypeError('Strategy: strategy must be a str')
        if self.strategy not in type(self).strategies:
            raise ValueError('Strategy: Unsupported strategy ' + 'value: ' + self.strategy)

    @law('C22')
    def __call__(self, *args, **kwargs):
        """run the method of the name"""
        return type(self).strategies[self.strategy](self, *args, **kwargs)

    @law('C16', 'C22')
    @staticmethod
    def _param_check(var, var_name, var_type=None):
        """types are checked"""
        if var is None:
            raise ValueError('Strategy: ' + var_name + ' is required.')
        if var_type is not None:
            if not isinstance(var, var_type):
                raise TypeError('Strategy: ' + var_name + ' must be of ' + 'type(s) ' + str(var_type))
