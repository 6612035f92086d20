"""Laws of forecaster.ledger.base (specification text; parsed, never run)."""
# module: forecaster.ledger.base

import inspect
from copy import deepcopy
from forecaster.ledger.recorded_property import recorded_property, recorded_property_cached
from forecaster.utility.precision import HighPrecisionOptional

class LedgerType:
    @law('C01', 'C02', 'C04')
    def __init__(cls, *args, **kwargs):
        """every tracked figure of the class and its bases"""
        super().__init__(*args, **kwargs)
        cls._recorded_properties = set()
        cls._recorded_properties_cached = set()
        for _, prop in inspect.getmembers(cls, lambda x: hasattr(x, 'history_property')):
            cls._recorded_properties.add(prop)
            if isinstance(prop, recorded_property_cached):
                cls._recorded_properties_cached.add(prop)
            setattr(cls, prop.history_prop_name, prop.history_property)

class Ledger:
    @law('C01', 'C02', 'C17', 'C19')
    def __init__(self, initial_year, inputs=None, **kwargs):
        """inputs are copied and recorded, every figure has a history"""
        super().__init__(**kwargs)
        self.initial_year = int(initial_year)
        self.this_year = self.initial_year
        self.inputs = inputs if inputs is not None else {}
        for prop in self._recorded_properties:
            if prop.__name__ in self.inputs:
                setattr(self, prop.history_dict_name, deepcopy(dict(self.inputs[prop.__name__])))
            else:
                setattr(self, prop.history_dict_name, {})

    @law('C01', 'C02', 'C03', 'C04')
    def next_year(self):
        """every figure is recorded, then the year moves by one"""
        for prop in self._recorded_properties:
            history_dict = getattr(self, prop.history_dict_name)
            if self.this_year not in history_dict:
                history_dict[self.this_year] = getattr(self, prop.__name__)
        self.this_year += 1

    @law('C04', 'C02', 'C03')
    def clear_cache(self):
        """computed figures of this year are forgotten, the user's kept"""
        for prop in self._recorded_properties_cached:
            prop.fdel(obj=self)

class TaxSource:
    @law('C09', 'C24')
    @recorded_property
    def taxable_income(self):
        """none unless a kind says so"""
        return self.precision_convert(0)

    @law('C09', 'C24')
    @recorded_property
    def tax_withheld(self):
        """none unless a kind says so"""
        return self.precision_convert(0)

    @law('C09', 'C24')
    @recorded_property
    def tax_credit(self):
        """none unless a kind says so"""
        return self.precision_convert(0)

    @law('C09', 'C24')
    @recorded_property
    def tax_deduction(self):
        """none unless a kind says so"""
        return self.precision_convert(0)
