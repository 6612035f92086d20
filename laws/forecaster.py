"""Laws of forecaster.forecaster (specification text; parsed, never run)."""
# module: forecaster.forecaster

from copy import copy, deepcopy
from functools import reduce
from enum import Enum
from forecaster.forecast import Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast, WithdrawalForecast, TaxForecast
from forecaster.tax import Tax
from forecaster.strategy import LivingExpensesStrategy, TransactionStrategy, AllocationStrategy
from forecaster.scenario import Scenario
from forecaster.settings import Settings
from forecaster.utility.precision import HighPrecisionOptional

DEFAULTVALUES: law('C21') = {str(Parameter.SCENARIO): {'initial_year': 'settings.initial_year', 'inflation': 'settings.inflation', 'stock_return': 'settings.stock_return', 'bond_return': 'settings.bond_return', 'other_return': 'settings.other_return', 'management_fees': 'settings.management_fees', 'num_years': 'settings.num_years'}, str(Parameter.LIVING_EXPENSES_STRATEGY): {'strategy': 'settings.living_expenses_strategy', 'base_amount': 'settings.living_expenses_base_amount', 'rate': 'settings.living_expenses_rate', 'inflation_adjust': 'scenario.inflation_adjust'}, str(Parameter.SAVING_STRATEGY): {'strategy': 'settings.saving_strategy', 'weights': 'settings.saving_weights'}, str(Parameter.WITHDRAWAL_STRATEGY): {'strategy': 'settings.withdrawal_strategy', 'weights': 'settings.withdrawal_weights'}, str(Parameter.ALLOCATION_STRATEGY): {'strategy': 'settings.allocation_strategy', 'target': 'settings.allocation_target', 'min_equity': 'settings.allocation_min_equity', 'max_equity': 'settings.allocation_max_equity', 'standard_retirement_age': 'settings.allocation_std_retirement_age', 'risk_transition_period': 'settings.allocation_risk_trans_period', 'adjust_for_retirement_plan': 'settings.allocation_adjust_retirement'}, str(Parameter.TAX_TREATMENT): {'tax_brackets': 'settings.tax_brackets', 'personal_deduction': 'settings.tax_personal_deduction', 'credit_rate': 'settings.tax_credit_rate', 'inflation_adjust': 'scenario.inflation_adjust', 'payment_timing': 'settings.tax_payment_timing'}}
DEFAULTTYPES: law('C21') = {str(Parameter.SCENARIO): Scenario, str(Parameter.LIVING_EXPENSES_STRATEGY): LivingExpensesStrategy, str(Parameter.SAVING_STRATEGY): TransactionStrategy, str(Parameter.WITHDRAWAL_STRATEGY): TransactionStrategy, str(Parameter.ALLOCATION_STRATEGY): AllocationStrategy, str(Parameter.TAX_TREATMENT): Tax}
DEFAULTBUILDERS: law('C21', 'C19') = {}
HIGHPRECISIONTYPES: law('C17') = frozenset((LivingExpensesStrategy, TransactionStrategy, AllocationStrategy, Tax, HighPrecisionOptional))

class Parameter:
    SCENARIO: law('C21') = 'scenario'
    LIVING_EXPENSES_STRATEGY: law('C21') = 'living_expenses_strategy'
    SAVING_STRATEGY: law('C21') = 'saving_strategy'
    WITHDRAWAL_STRATEGY: law('C21') = 'withdrawal_strategy'
    ALLOCATION_STRATEGY: law('C21') = 'allocation_strategy'
    TAX_TREATMENT: law('C21') = 'tax_treatment'

    @law('C21')
    def __str__(self):
        """the name of the parameter"""
        return self.value

class Forecaster:
    @law('C21', 'C19', 'C17')
    def __init__(self, settings=None, scenario=None, living_expenses_strategy=None, saving_strategy=None, withdrawal_strategy=None, tax_treatment=None, high_precision=None):
        """own settings, own tables"""
        super().__init__(high_precision=high_precision)
        self.default_values = deepcopy(DEFAULTVALUES)
        self.default_types = copy(DEFAULTTYPES)
        self.default_builders = copy(DEFAULTBUILDERS)
        if settings is None:
            self.settings = Settings()
        else:
            self.settings = settings
        self.scenario = scenario
        self.living_expenses_strategy = living_expenses_strategy
        self.saving_strategy = saving_strategy
        self.withdrawal_strategy = withdrawal_strategy
        self.tax_treatment = tax_treatment
        self.allocation_strategy = None

    @law('C21')
    def _get_attr_recursive(self, name, memo=None):
        """dotted names are followed"""
        name_list = name.split('.')
        top_attr_name = name_list[0]
        attr = getattr(self, top_attr_name)
        if attr is None and top_attr_name in self.default_values:
            attr = self.build_param(top_attr_name, memo=memo)
        if len(name_list) == 1:
            return attr
        else:
            return reduce(getattr, name_list[1:], attr)

    @law('C19', 'C21', 'C17')
    def run_forecast(self, people, accounts, debts):
        """copies of people, accounts and debts; everything wired where it belongs"""
        memo = {}
        people = deepcopy(people, memo=memo)
        accounts = deepcopy(accounts, memo=memo)
        debts = deepcopy(debts, memo=memo)
        memo = {}
        scenario = self.get_param(Parameter.SCENARIO, memo=memo)
        initial_year = scenario.initial_year
        living_expenses_strategy = self.get_param(Parameter.LIVING_EXPENSES_STRATEGY, memo=memo)
        saving_strategy = self.get_param(Parameter.SAVING_STRATEGY, memo=memo)
        withdrawal_strategy = self.get_param(Parameter.WITHDRAWAL_STRATEGY, memo=memo)
        tax_treatment = self.get_param(Parameter.TAX_TREATMENT, memo=memo)
        income_forecast = IncomeForecast(initial_year=initial_year, people=people, high_precision=self.high_precision)
        living_expenses_forecast = LivingExpensesForecast(initial_year=initial_year, people=people, living_expenses_strategy=living_expenses_strategy, high_precision=self.high_precision)
        saving_forecast = SavingForecast(initial_year=initial_year, retirement_accounts=accounts, debt_accounts=debts, transaction_strategy=saving_strategy, high_precision=self.high_precision)
        withdrawal_forecast = WithdrawalForecast(initial_year=initial_year, people=people, accounts=accounts, transaction_strategy=withdrawal_strategy, high_precision=self.high_precision)
        tax_forecast = TaxForecast(initial_year=initial_year, people=people, tax_treatment=tax_treatment, high_precision=self.high_precision)
        forecast = Forecast(income_forecast=income_forecast, living_expenses_forecast=living_expenses_forecast, saving_forecast=saving_forecast, withdrawal_forecast=withdrawal_forecast, tax_forecast=tax_forecast, scenario=scenario, high_precision=self.high_precision)
        return forecast

    @law('C21', 'C17')
    def build_param(self, param_name, *args, param_type=None, memo=None, _special_builder=True, **kwargs):
        """explicit values first, then the settings of the same meaning"""
        param_name = str(param_name)
        if memo is None:
            memo = {}
        elif param_name in memo:
            return memo[param_name]
        if _special_builder and param_name in self.default_builders:
            return getattr(self, self.default_builders[param_name])(*args, **kwargs)
        if param_name in self.default_values:
            default_values = copy(self.default_values[param_name])
            for key, value in default_values.items():
                default_values[key] = self._get_attr_recursive(value, memo=memo)
            default_values.update(kwargs)
            kwargs = default_values
        if param_type is None:
            param_type = self.default_types[param_name]
        is_high_precision_type = any((issubclass(param_type, high_precision_type) for high_precision_type in HIGHPRECISIONTYPES))
        if is_high_precision_type and 'high_precision' not in kwargs:
            kwargs['high_precision'] = self.high_precision
        param = param_type(*args, **kwargs)
        memo[param_name] = param
        return param

    @law('C21')
    def get_param(self, param_name, memo=None):
        """explicit, then built once"""
        param_name = str(param_name)
        explicit_attr = getattr(self, param_name)
        if explicit_attr is None:
            explicit_attr = self.build_param(param_name, memo=memo)
        if not isinstance(explicit_attr, str):
            return explicit_attr
        try:
            float_attr = float(explicit_attr)
        except ValueError:
            return explicit_attr
        int_attr = int(float_attr)
        if float_attr == int_attr:
            return int_attr
        if self.high_precision is not None:
            try:
                return self.high_precision(explicit_attr)
            except:
                return self.high_precision(float_attr)
        return float_attr

    @law('C21')
    def set_param(self, param_name, *args, param_type=None, memo=None, **kwargs):
        """explicit choices are kept"""
        param_name = str(param_name)
        param = self.build_param(param_name, *args, param_type=param_type, memo=memo, **kwargs)
        setattr(self, param_name, param)

    @law('C21', 'C17')
    def build_allocation_strategy(self, *args, **kwargs):
        """with the scenario"""
        return self.build_param(Parameter.ALLOCATION_STRATEGY, *args, param_type=AllocationStrategy, _special_builder=False, **kwargs)
