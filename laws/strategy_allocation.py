"""Laws of forecaster.strategy.allocation (specification text; parsed, never run)."""
# module: forecaster.strategy.allocation

from collections import namedtuple
from forecaster.strategy.base import Strategy, strategy_method
from forecaster.utility.precision import HighPrecisionOptionalPropertyCached

AssetAllocation: law('C29') = namedtuple('AssetAllocation', 'stocks bonds other')

class RateFunction:
    @law('C29')
    def __init__(self, scenario, person, allocation_strategy):
        """person, scenario and strategy"""
        self.scenario = scenario
        self.person = person
        self.allocation_strategy = allocation_strategy

    @law('C29')
    def __call__(self, year):
        """the class returns of the year weighted by the allocation of the age"""
        allocation = self.allocation_strategy(age=self.person.age(year), retirement_age=self.person.retirement_age)
        return (allocation.stocks * self.scenario.stock_return[year] + allocation.bonds * self.scenario.bond_return[year] + allocation.other * self.scenario.other_return[year]) / (allocation.stocks + allocation.bonds + allocation.other)

class AllocationStrategy:
    min_equity: law('C17', 'C29') = HighPrecisionOptionalPropertyCached()
    max_equity: law('C17', 'C29') = HighPrecisionOptionalPropertyCached()
    target: law('C17', 'C29') = HighPrecisionOptionalPropertyCached()

    @law('C29', 'C16', 'C22')
    def __init__(self, strategy, target, min_equity=0, max_equity=1, standard_retirement_age=65, risk_transition_period=20, adjust_for_retirement_plan=True, **kwargs):
        """bounds in order"""
        super().__init__(strategy=strategy, **kwargs)
        self.min_equity = min_equity
        self.max_equity = max_equity
        self.standard_retirement_age = int(standard_retirement_age)
        self.target = target
        self.risk_transition_period = int(risk_transition_period)
        self.adjust_for_retirement_plan = bool(adjust_for_retirement_plan)
        if self.max_equity < self.min_equity:
            raise ValueError('AllocationStrategy: min_equity must not be ' + 'greater than max_equity.')

    @law('C29')
    @strategy_method('n-age')
    def strategy_n_minus_age(self, age, *args, retirement_age=None, **kwargs):
        """a share that falls with age"""
        if self.adjust_for_retirement_plan:
            self._param_check(retirement_age, 'retirement age')
            age += self.standard_retirement_age - retirement_age
        else:
            retirement_age = self.standard_retirement_age
        target = (self.target - age) / 100
        return AssetAllocation(target, 1 - target, 0)

    @law('C29')
    @strategy_method('Transition to constant')
    def strategy_transition_to_const(self, age, *args, retirement_age=None, **kwargs):
        """gradual move to the target"""
        if self.adjust_for_retirement_plan:
            self._param_check(retirement_age, 'retirement age')
        else:
            retirement_age = self.standard_retirement_age
        if age <= retirement_age - self.risk_transition_period:
            return AssetAllocation(self.max_equity, 1 - self.max_equity, 0)
        elif age >= retirement_age:
            min_equity = max(self.min_equity, self.target)
            return AssetAllocation(min_equity, 1 - min_equity, 0)
        target = self.target + (self.max_equity - self.target) * (retirement_age - age) / self.risk_transition_period
        return AssetAllocation(target, 1 - target, 0)

    @law('C29', 'C21')
    def rate_function(self, person, scenario):
        """the person's rate function"""
        return RateFunction(scenario, person, self)

    @law('C29')
    def _balance_allocation(self, allocation):
        """equity within bounds, total unchanged"""
        if allocation.stocks > self.max_equity:
            bonds = allocation.bonds + (allocation.stocks - self.max_equity) * allocation.bonds / (allocation.bonds + allocation.other)
            other = allocation.other + (allocation.stocks - self.max_equity) * allocation.other / (allocation.bonds + allocation.other)
            allocation = AssetAllocation(self.max_equity, bonds, other)
        elif allocation.stocks < self.min_equity:
            bonds = allocation.bonds - (self.min_equity - allocation.stocks) * allocation.bonds / (allocation.bonds + allocation.other)
            other = allocation.other - (self.min_equity - allocation.stocks) * allocation.other / (allocation.bonds + allocation.other)
            allocation = AssetAllocation(self.min_equity, bonds, other)
        return allocation

    @law('C29', 'C22')
    def __call__(self, age, *args, retirement_age=None, **kwargs):
        """the rule, then the bounds"""
        allocation = super().__call__(age, *args, retirement_age=retirement_age, **kwargs)
        return self._balance_allocation(allocation)
