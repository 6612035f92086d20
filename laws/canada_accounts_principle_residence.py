"""Laws of forecaster.canada.accounts.principle_residence (specification text; parsed, never run)."""
# module: forecaster.canada.accounts.principle_residence

from forecaster.accounts import Account
from forecaster.ledger import recorded_property

class PrincipleResidence:
    @law('C25', 'C09')
    @recorded_property
    def taxable_income(self):
        """a principal residence yields no taxable income"""
        return self.precision_convert(0)
