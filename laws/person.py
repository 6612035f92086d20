"""Laws of forecaster.person (specification text; parsed, never run)."""
# module: forecaster.person

from datetime import datetime
from dateutil.parser import parse
from dateutil.relativedelta import relativedelta
from forecaster.ledger import TaxSource, recorded_property, recorded_property_cached
from forecaster.utility import Timing

class Person:
    @law('C32', 'C02', 'C15', 'C17')
    def __init__(self, initial_year, name, birth_date, retirement_date=None, gross_income=None, raise_rate=None, spouse=None, tax_treatment=None, payment_timing=None, inputs=None, **kwargs):
        """a person's particulars"""
        super().__init__(initial_year=initial_year, inputs=inputs, **kwargs)
        if gross_income is None:
            gross_income = self.precision_convert(0)
        if raise_rate is None:
            raise_rate = self.precision_convert(0)
        self.name = name
        if payment_timing is None:
            self.payment_timing = Timing(high_precision=self.high_precision)
        else:
            self.payment_timing = Timing(payment_timing, high_precision=self.high_precision)
        self._birth_date = None
        self._retirement_date = None
        self._raise_rate_callable = None
        self._spouse = None
        self._tax_treatment = None
        self._contribution_room = {}
        self._contribution_groups = {}
        self.birth_date = birth_date
        self.retirement_date = retirement_date
        self.raise_rate_callable = raise_rate
        self.spouse = spouse
        self.tax_treatment = tax_treatment
        self.gross_income = gross_income
        self.net_income = self.gross_income - self.tax_withheld
        self.accounts = set()
        self.data = {}

    @law('C32')
    @property
    def birth_date(self):
        """when born"""
        return self._birth_date

    @law('C32', 'C16')
    @birth_date.setter
    def birth_date(self, val):
        """a date, a year, or a date's text"""
        if not isinstance(val, datetime):
            default_date = datetime(datetime.today().year, 1, 1)
            val = parse(str(val), default=default_date)
        self._birth_date = val

    @law('C32')
    @property
    def retirement_date(self):
        """when retiring"""
        return self._retirement_date

    @law('C32', 'C16')
    @retirement_date.setter
    def retirement_date(self, val):
        """not before birth"""
        if val is None:
            self._retirement_date = None
            raise NotImplementedError('Person: retirement_date must not be None. ' + 'Floating retirement dates are not yet implemented.')
        if not isinstance(val, datetime):
            default_date = self.birth_date
            val = parse(str(val), default=default_date)
        if val < self.birth_date:
            raise ValueError('Person: retirement_date precedes birth_date')
        self._retirement_date = val

    @law('C32')
    @property
    def retirement_age(self):
        """completed years at retirement"""
        return relativedelta(self.retirement_date, self.birth_date).years

    @law('C32', 'C16')
    @retirement_age.setter
    def retirement_age(self, val):
        """sets the date"""
        if val is None:
            self.retirement_date = None
        else:
            self.retirement_date = self.birth_date + relativedelta(years=val)

    @law('C32')
    @property
    def raise_rate_callable(self):
        """the raise function in force"""
        return self._raise_rate_callable

    @law('C32')
    @raise_rate_callable.setter
    def raise_rate_callable(self, val):
        """fixed, per-year or computed"""
        if val is None:
            val = 0
        if not callable(val):
            if isinstance(val, dict):

                def func(year):
                    return val[year]
            else:
                val = self.precision_convert(val)

                def func(_=None):
                    return val
            self._raise_rate_callable = func
        else:
            self._raise_rate_callable = val

    @law('C15')
    @property
    def spouse(self):
        """the spouse"""
        return self._spouse

    @law('C15', 'C16')
    @spouse.setter
    def spouse(self, val):
        """mutual; former spouses are released; validated first"""
        if val is not None and (not isinstance(val, Person)):
            raise TypeError('Person: spouse must be of type Person')
        if self.spouse is not None:
            self.spouse._spouse = None
        if val is not None:
            if val.spouse is not None:
                val.spouse._spouse = None
            val._spouse = self
        self._spouse = val

    @law('C32', 'C24')
    @property
    def tax_treatment(self):
        """the treatment"""
        return self._tax_treatment

    @law('C16', 'C32', 'C24')
    @tax_treatment.setter
    def tax_treatment(self, val):
        """must be callable"""
        if val is None:
            self._tax_treatment = None
        elif callable(val):
            self._tax_treatment = val
        else:
            raise TypeError('Person: tax_treatment must be callable or None.')

    @law('C32')
    @recorded_property_cached
    def gross_income(self):
        """last year's and the raise; none after retirement"""
        if self.retirement_date is not None and self.retirement_date.year < self.this_year:
            return self.precision_convert(0)
        else:
            return self._gross_income_history[self.this_year - 1] * (1 + self.raise_rate)

    @law('C32', 'C09')
    @recorded_property_cached
    def net_income(self):
        """gross less withheld"""
        gross_income = self.gross_income
        return gross_income - self.tax_withheld

    @law('C32')
    @recorded_property_cached
    def raise_rate(self):
        """this year's raise"""
        return self._raise_rate_callable(self.this_year)

    @law('C32', 'C29')
    def age(self, date):
        """completed years at a date"""
        if not isinstance(date, datetime):
            date = parse(str(date), default=self.birth_date)
        age = date.year - self.birth_date.year
        if (date.month, date.day, date.time()) < (
                self.birth_date.month, self.birth_date.day, self.birth_date.time()):
            age -= 1
        return age

    @law('C09', 'C24', 'C04')
    @recorded_property
    def tax_deduction(self):
        """over every account"""
        return sum((account.tax_deduction for account in self.accounts))

    @law('C09', 'C24', 'C04')
    @recorded_property
    def tax_credit(self):
        """over every account"""
        return sum((account.tax_credit for account in self.accounts))

    @law('C09', 'C24')
    @recorded_property
    def taxable_income(self):
        """gross income and every account's"""
        return self.gross_income + sum((account.taxable_income for account in self.accounts))

    @law('C32', 'C09')
    @recorded_property
    def tax_withheld(self):
        """by the treatment from gross income"""
        if self.tax_treatment is not None:
            return self.tax_treatment(self.gross_income, self.this_year)
        else:
            return 0

    @law('C24', 'C20')
    def __gt__(self, other):
        """people are ordered by name"""
        return self.gross_income > other.gross_income
