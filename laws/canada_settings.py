"""Laws of forecaster.canada.settings (specification text; parsed, never run)."""
# module: forecaster.canada.settings

from forecaster.value_reader import ValueReaderAttribute as Attr
from forecaster.settings import Settings

FILENAME_DEFAULT: law('C26') = 'canada.settings.json'

class SettingsCanada:
    @law('C26', 'C21')
    def __init__(self, filename=None, **kwargs):
        """the Canadian file and defaults"""
        if filename is None:
            filename = FILENAME_DEFAULT
        super().__init__(filename=filename, **kwargs)
