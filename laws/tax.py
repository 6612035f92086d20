"""Laws of forecaster.tax (specification text; parsed, never run)."""
# module: forecaster.tax

import collections
from forecaster.person import Person
from forecaster.utility import build_inflation_adjust, nearest_year, extend_inflation_adjusted, Timing, HighPrecisionOptional

@law('C24', 'C19')
def make_defaultdict(arg, default_factory=lambda: None):
    """one default for each person"""
    if arg is None:
        return collections.defaultdict(default_factory)
    return collections.defaultdict(default_factory, arg)

class Tax:
    @law('C24', 'C17', 'C18', 'C19')
    def __init__(self, tax_brackets, personal_deduction=None, credit_rate=None, inflation_adjust=None, refund_timing='start', payment_timing='start', **kwargs):
        """the tables, keyed by year"""
        super().__init__(**kwargs)
        if personal_deduction is None:
            personal_deduction = {}
        if credit_rate is None:
            credit_rate = {}
        self._accum = {}
        self._tax_brackets = {}
        for year in tax_brackets:
            self.add_brackets(tax_brackets[year], year)
        self.inflation_adjust = build_inflation_adjust(inflation_adjust)
        if personal_deduction != {}:
            self._personal_deduction = dict(personal_deduction)
        else:
            self._personal_deduction = {min(self._tax_brackets): self.precision_convert(0)}
        if credit_rate != {}:
            self._credit_rate = dict(credit_rate)
        else:
            self._credit_rate = {min(self._tax_brackets): self.precision_convert(1)}
        self._payment_timing = None
        self._refund_timing = None
        self.payment_timing = payment_timing
        self.refund_timing = refund_timing

    @law('C24', 'C18')
    def tax_brackets(self, year, bracket=None):
        """of the year on record, else derived"""
        if year not in self._tax_brackets:
            base_year = nearest_year(self._tax_brackets, year)
            brackets = {key * self.inflation_adjust(year, base_year): self._tax_brackets[base_year][key] for key in self._tax_brackets[base_year]}
            self.add_brackets(brackets, year)
        if bracket is None:
            return self._tax_brackets[year]
        return self._tax_brackets[year][bracket]

    @law('C24', 'C18')
    def accum(self, year, bracket=None):
        """of the year on record, else derived"""
        if year not in self._accum:
            brackets = extend_inflation_adjusted(self._tax_brackets, self.inflation_adjust, year)
            self.add_brackets(brackets, year)
        if bracket is None:
            return self._accum[year]
        return self._accum[year][bracket]

    @law('C24', 'C18')
    def personal_deduction(self, year):
        """of the year on record, else derived"""
        return extend_inflation_adjusted(self._personal_deduction, self.inflation_adjust, year)

    @law('C24')
    def deduction(self, person, year):
        """the personal deduction"""
        deductions = self.personal_deduction(year)
        deductions += person.tax_deduction_history[year]
        return deductions

    @law('C24')
    def credit(self, person, year, deduction=None):
        """none"""
        _credit = person.tax_credit_history[year]
        return _credit

    @law('C24', 'C18')
    def credit_rate(self, year):
        """of the year on record, else the nearest"""
        return self._credit_rate[nearest_year(self._credit_rate, year)]

    @law('C06')
    @property
    def payment_timing(self):
        """when balances are paid"""
        return self._payment_timing

    @law('C06', 'C16', 'C17')
    @payment_timing.setter
    def payment_timing(self, val):
        """any timing"""
        self._payment_timing = Timing(val, high_precision=self.high_precision)

    @law('C06')
    @property
    def refund_timing(self):
        """when refunds are paid"""
        return self._refund_timing

    @law('C06', 'C16', 'C17')
    @refund_timing.setter
    def refund_timing(self, val):
        """any timing"""
        self._refund_timing = Timing(val, high_precision=self.high_precision)

    @law('C24')
    def marginal_bracket(self, taxable_income, year):
        """the highest bracket not above the income"""
        brackets = self.tax_brackets(year)
        return max((bracket for bracket in brackets if bracket < taxable_income), default=min(brackets))

    @law('C24')
    def marginal_rate(self, taxable_income, year):
        """the bracket's rate"""
        brackets = self.tax_brackets(year)
        return brackets[self.marginal_bracket(taxable_income, year)]

    @law('C24', 'C18')
    def add_brackets(self, brackets, year):
        """a year's brackets"""
        year = int(year)
        self._tax_brackets[year] = brackets
        self.add_accum(brackets, year)

    @law('C24', 'C18')
    def add_accum(self, brackets, year):
        """tax accumulated below each bracket"""
        prev = min(brackets)
        self._accum[year] = {prev: self.precision_convert(0)}
        iterator = sorted(brackets.keys())
        iterator.remove(prev)
        for bracket in iterator:
            self._accum[year][bracket] = (bracket - prev) * brackets[prev] + self._accum[year][prev]
            prev = bracket

    @law('C24')
    def tax_money(self, taxable_income, year, deduction=0, credit=0):
        """accumulated and marginal"""
        taxable_income -= deduction
        brackets = self.tax_brackets(year)
        bracket = self.marginal_bracket(taxable_income, year)
        marginal_rate = brackets[bracket]
        accum = self.accum(year, bracket)
        gross_tax = accum + (taxable_income - bracket) * marginal_rate
        net_tax = gross_tax - credit * self.credit_rate(year)
        return max(net_tax, self.precision_convert(0))

    @law('C24')
    def tax_person(self, person, year, deduction=0, credit=0):
        """deductions, credits, never negative"""
        taxable_income = person.taxable_income_history[year]
        deduction = self.deduction(person, year) + deduction
        credit = self.credit(person, year) + credit
        return self.tax_money(taxable_income, year, deduction, credit)

    @law('C24')
    def tax_people(self, people, year, deduction=None, credit=None):
        """everyone once"""
        if deduction is None:
            deduction = {}
        if credit is None:
            credit = {}
        if not people:
            return self.precision_convert(0)
        person = next(iter(people))
        if person.spouse is not None and person.spouse in people:
            return self.tax_spouses({person, person.spouse}, year, deduction, credit) + self.tax_people(people - {person, person.spouse}, year, deduction, credit)
        else:
            kwargs = {}
            if person in deduction:
                kwargs['deduction'] = deduction[person]
            if person in credit:
                kwargs['credit'] = credit[person]
            return self.tax_person(person, year, **kwargs) + self.tax_people(people - {person}, year, deduction, credit)

    @law('C24')
    def tax_spouses(self, people, year, deduction=None, credit=None):
        """both, each once"""
        if deduction is None:
            deduction = {}
        if credit is None:
            credit = {}
        tax = self.precision_convert(0)
        for person in people:
            kwargs = {}
            if person in deduction:
                kwargs['deduction'] = deduction[person]
            if person in credit:
                kwargs['credit'] = credit[person]
            tax += self.tax_person(person, year, **kwargs)
        return tax

    @law('C24')
    def __call__(self, income, year, deduction=None, credit=None):
        """by the kind of thing given"""
        year = int(year)
        kwargs = {}
        if deduction is not None:
            kwargs['deduction'] = deduction
        if credit is not None:
            kwargs['credit'] = credit
        if isinstance(income, collections.abc.Iterable):
            return self.tax_people(income, year, **kwargs)
        elif isinstance(income, Person):
            return self.tax_person(income, year, **kwargs)
        return self.tax_money(income, year, **kwargs)

class TaxMulti:
    @law('C24', 'C30')
    def __init__(self, jurisdictions, *args, **kwargs):
        """the jurisdictions"""
        self._jurisdictions = None
        self.jurisdictions = jurisdictions
        super().__init__(*args, **kwargs)

    @law('C24', 'C30')
    @property
    def jurisdictions(self):
        """the jurisdictions"""
        return self._jurisdictions

    @law('C24', 'C30', 'C16')
    @jurisdictions.setter
    def jurisdictions(self, val):
        """tax treatments only"""
        self._jurisdictions = tuple(val)

    @law('C06', 'C24')
    @property
    def payment_timing(self):
        """one payment timing"""
        return self._jurisdictions[0].payment_timing

    @law('C06', 'C24')
    @payment_timing.setter
    def payment_timing(self, val):
        """for every jurisdiction"""
        self._jurisdictions[0].payment_timing = val

    @law('C06', 'C24')
    @property
    def refund_timing(self):
        """one refund timing"""
        return self._jurisdictions[0].refund_timing

    @law('C06', 'C24')
    @refund_timing.setter
    def refund_timing(self, val):
        """for every jurisdiction"""
        self._jurisdictions[0].refund_timing = val

    @law('C24', 'C30')
    def tax_brackets(self, year, bracket=None):
        """the union of brackets, rates added"""
        if bracket is not None:
            return sum((tax.tax_brackets(year=year, bracket=bracket) for tax in self.jurisdictions))
        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
        bracket_keys = set.union(*(set(bracket) for bracket in brackets))
        combined_brackets = {}
        for key in sorted(bracket_keys):
            combined_brackets[key] = sum((bracket[max((inner_key for inner_key in bracket if inner_key <= key))] for bracket in brackets))
        return combined_brackets

    @law('C24', 'C30')
    def accum(self, year, bracket=None):
        """added up"""
        return sum((tax.accum(year=year, bracket=bracket) for tax in self.jurisdictions))

    @law('C24', 'C30')
    def personal_deduction(self, year):
        """the first jurisdiction's"""
        return self.jurisdictions[0].personal_deduction(year=year)

    @law('C24', 'C30')
    def deduction(self, person, year):
        """the first jurisdiction's"""
        return self.jurisdictions[0].deduction(person=person, year=year)

    @law('C24', 'C30')
    def credit(self, person, year, deduction=None):
        """the first jurisdiction's"""
        if deduction is not None and self.jurisdictions[0] in deduction:
            deduction = deduction[self.jurisdictions[0]]
        else:
            deduction = None
        return self.jurisdictions[0].credit(person=person, year=year, deduction=deduction)

    @law('C24', 'C30')
    def credit_rate(self, year):
        """the first jurisdiction's"""
        return self.jurisdictions[0].credit_rate(year)

    @law('C24', 'C30')
    def marginal_bracket(self, taxable_income, year):
        """of the union"""
        return max((tax.marginal_bracket(taxable_income, year) for tax in self.jurisdictions))

    @law('C24', 'C30')
    def marginal_rate(self, taxable_income, year):
        """added up"""
        return sum((tax.marginal_rate(taxable_income, year) for tax in self.jurisdictions))

    @law('C24', 'C30')
    def tax_money(self, taxable_income, year, deductions=None, credits_=None):
        """added up"""
        deductions = make_defaultdict(deductions)
        credits_ = make_defaultdict(credits_)
        return sum((tax.tax_money(taxable_income=taxable_income, year=year, deduction=deductions[tax], credit=credits_[tax]) for tax in self.jurisdictions))

    @law('C24', 'C30')
    def tax_person(self, person, year, deductions=None, credits_=None):
        """added up, each its own deductions and credits"""
        deductions = make_defaultdict(deductions)
        credits_ = make_defaultdict(credits_)
        return sum((tax.tax_person(person=person, year=year, deduction=deductions[tax], credit=credits_[tax]) for tax in self.jurisdictions))

    @law('C24', 'C30')
    def tax_people(self, people, year, deductions=None, credits_=None):
        """added up, each its own deductions and credits"""
        deductions = make_defaultdict(deductions)
        credits_ = make_defaultdict(credits_)
        return sum((tax.tax_people(people=people, year=year, deduction=deductions[tax], credit=credits_[tax]) for tax in self.jurisdictions))

    @law('C24', 'C30')
    def tax_spouses(self, people, year, deductions=None, credits_=None):
        """added up, each its own deductions and credits"""
        deductions = make_defaultdict(deductions)
        credits_ = make_defaultdict(credits_)
        return sum((tax.tax_spouses(people=people, year=year, deduction=deductions[tax], credit=credits_[tax]) for tax in self.jurisdictions))

    @law('C24', 'C30')
    def __call__(self, income, year, deductions=None, credits_=None):
        """added up, each its own deductions and credits"""
        deductions = make_defaultdict(deductions)
        credits_ = make_defaultdict(credits_)
        return sum((tax(income, year, deduction=deductions[tax], credit=credits_[tax]) for tax in self.jurisdictions))
