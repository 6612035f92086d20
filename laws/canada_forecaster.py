"""Laws of forecaster.canada.forecaster (specification text; parsed, never run)."""
# module: forecaster.canada.forecaster

from copy import deepcopy
from forecaster.forecaster import Forecaster, Parameter
from forecaster.canada.tax import TaxCanada
from forecaster.canada.settings import SettingsCanada

DEFAULTVALUES: law('C21', 'C30') = {str(Parameter.TAX_TREATMENT): {'inflation_adjust': 'scenario.inflation_adjust', 'province': 'settings.tax_province'}}
DEFAULTTYPES: law('C21', 'C30') = {str(Parameter.TAX_TREATMENT): TaxCanada}

class ForecasterCanada:
    @law('C19', 'C21', 'C30')
    def __init__(self, *args, settings=None, **kwargs):
        """Canadian defaults unless others are given"""
        if settings is None:
            settings = SettingsCanada()
        super().__init__(*args, settings=settings, **kwargs)
        self.default_values.update(deepcopy(DEFAULTVALUES))
        self.default_types.update(DEFAULTTYPES)
