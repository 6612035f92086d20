"""Laws of forecaster.scenario (specification text; parsed, never run)."""
# module: forecaster.scenario

import collections

class Scenario:
    @law('C33', 'C16')
    def __init__(self, initial_year, num_years, inflation=0, stock_return=0, bond_return=0, other_return=0, management_fees=0):
        """the years and each kind of rate"""
        self.initial_year = int(initial_year)
        self.num_years = int(num_years)
        if num_years < 1:
            raise ValueError('Scenario: num_years must be positive.')
        self.inflation = self._build_dict(inflation, self.initial_year)
        self.stock_return = self._build_dict(stock_return, self.initial_year)
        self.bond_return = self._build_dict(bond_return, self.initial_year)
        self.other_return = self._build_dict(other_return, self.initial_year)
        self.management_fees = self._build_dict(management_fees, self.initial_year)

    @law('C33')
    @staticmethod
    def _build_dict(in_val=None, initial_year=None, default=None):
        """a rate for each year"""
        if in_val is None:
            if default is None:
                raise ValueError('Scenario: in_val and default cannot both be None.')
            return Scenario._build_dict(default, initial_year)
        if default is not None and (not callable(default)):
            _default = default

            def default():
                return _default
        if isinstance(in_val, dict):
            if default is not None:
                return collections.defaultdict(default, in_val)
            else:
                return in_val
        if isinstance(in_val, collections.abc.Iterable):
            if initial_year is None:
                raise ValueError('Scenario: initial_year is required if input is a list.')
            if default is not None:
                out_val = collections.defaultdict(default, {key: in_val[key - initial_year] for key in range(initial_year, initial_year + len(in_val))})
            else:
                out_val = {key: in_val[key - initial_year] for key in range(initial_year, initial_year + len(in_val))}
            return out_val
        return collections.defaultdict(lambda: in_val)

    @law('C33')
    def discount_rate(self, year):
        """the rate of the year"""
        return self.inflation[year]

    @law('C18')
    def accumulation_function(self, year1, year2):
        """compound growth of inflation between years"""
        accum = 1
        if year1 <= year2:
            for year in range(year1, year2):
                accum = accum * (1 + self.discount_rate(year))
            return accum
        else:
            for year in range(year2, year1):
                accum = accum * (1 + self.discount_rate(year))
            return 1 / accum

    @law('C18')
    def inflation_adjustments(self, base_year):
        """factors of every year against the base"""
        return {year: self.accumulation_function(base_year, year) for year in self}

    @law('C18', 'C19')
    @property
    def inflation_adjust(self):
        """the scenario's own adjustment"""
        return InflationAdjust(self)

    @law('C33', 'C16')
    def __len__(self):
        """the number of years"""
        return self.num_years

    @law('C33', 'C05')
    def __iter__(self):
        """each year once, in order"""
        for year in range(self.initial_year, self.initial_year + len(self)):
            yield year

class InflationAdjust:
    @law('C18', 'C19')
    def __init__(self, scenario):
        """bound to the scenario"""
        self.scenario = scenario

    @law('C18')
    def __call__(self, target_year, base_year=None):
        """multiply by the inflation between the years"""
        if base_year is None:
            base_year = self.scenario.initial_year
        return self.scenario.accumulation_function(base_year, target_year)
