"""Laws of forecaster.settings (specification text; parsed, never run)."""
# module: forecaster.settings

import datetime
from forecaster.value_reader import ValueReader, ValueReaderAttribute as Attr

FILENAME_DEFAULT: law('C26') = 'settings.json'

class Settings:
    @law('C26', 'C21')
    def __init__(self, filename=None, *, encoder_cls=None, decoder_cls=None, high_precision=None, high_precision_serialize=None, numeric_convert=True, use_defaults=True):
        """the file and the defaults"""
        if filename is None:
            filename = FILENAME_DEFAULT
        super().__init__(filename, encoder_cls=encoder_cls, decoder_cls=decoder_cls, high_precision=high_precision, high_precision_serialize=high_precision_serialize, numeric_convert=numeric_convert, use_defaults=use_defaults)
