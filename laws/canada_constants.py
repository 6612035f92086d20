"""Laws of forecaster.canada.constants (specification text; parsed, never run)."""
# module: forecaster.canada.constants

from forecaster.value_reader import ValueReader, ValueReaderAttribute as Attr

FILENAME_DEFAULT: law('C26') = 'canada.constants.json'

class ConstantsCanada:
    @law('C26', 'C17')
    def __init__(self, filename=None, **kwargs):
        """the Canadian file and defaults"""
        if filename is None:
            filename = FILENAME_DEFAULT
        super().__init__(filename=filename, **kwargs)
