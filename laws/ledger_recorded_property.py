"""Laws of forecaster.ledger.recorded_property (specification text; parsed, never run)."""
# module: forecaster.ledger.recorded_property


class recorded_property:
    @law('C01', 'C02', 'C03', 'C04')
    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        """histories and overrides"""
        if fget is not None and fget.__name__ != 'getter':
            name_method = fget
        elif fset is not None and fset.__name__ != 'setter':
            name_method = fset
        elif fdel is not None and fdel.__name__ != 'deleter':
            name_method = fdel
        else:
            name_method = fget
        self.__name__ = name_method.__name__
        self.history_prop_name = self.__name__ + '_history'
        self.history_dict_name = '_' + self.history_prop_name

        def getter(obj):
            history_dict = getattr(obj, self.history_dict_name)
            if obj.this_year in history_dict:
                return history_dict[obj.this_year]
            else:
                return fget(obj)

        def setter(obj, val):
            if self.__name__ in obj.inputs and obj.this_year in obj.inputs[self.__name__]:
                return
            history_dict = getattr(obj, self.history_dict_name)
            if fset is None:
                history_dict[obj.this_year] = val
            else:
                if obj.this_year in history_dict:
                    del history_dict[obj.this_year]
                fset(obj, val)

        def deleter(obj):
            if self.__name__ in obj.inputs and obj.this_year in obj.inputs[self.__name__]:
                return
            history_dict = getattr(obj, self.history_dict_name)
            if obj.this_year in history_dict:
                del history_dict[obj.this_year]
            if fdel is not None:
                fdel(obj)
        super().__init__(fget=getter, fset=setter, fdel=deleter, doc=doc)

        def history(obj):
            history_dict = getattr(obj, self.history_dict_name)
            if obj.this_year not in history_dict:
                history_dict = dict(history_dict)
                history_dict[obj.this_year] = fget(obj)
            return history_dict
        history.__name__ = self.history_prop_name
        self.history_property = property(fget=history, doc='Record of ' + self.__name__ + ' over all past years.')

class recorded_property_cached:
    @law('C01', 'C02', 'C03', 'C04')
    def __init__(self, fget=None, fset=None, fdel=None, doc=None):
        """the same, kept once computed"""

        def getter(obj):
            history_dict = getattr(obj, self.history_dict_name)
            val = fget(obj)
            history_dict[obj.this_year] = val
            return val
        getter.__name__ = fget.__name__
        getter.__doc__ = fget.__doc__
        super().__init__(fget=getter, fset=fset, fdel=fdel, doc=doc)

        def history(obj):
            history_dict = getattr(obj, self.history_dict_name)
            if obj.this_year not in history_dict:
                history_dict[obj.this_year] = fget(obj)
            return history_dict
        history.__name__ = self.history_prop_name
        self.history_property = property(fget=history, doc=self.history_property.__doc__)
