"""Laws of forecaster.canada.accounts.registered_account (specification text; parsed, never run)."""
# module: forecaster.canada.accounts.registered_account

from forecaster.accounts import LinkedLimitAccount
from forecaster.ledger import recorded_property
from forecaster.canada.constants import ConstantsCanada
from forecaster.utility import build_inflation_adjust

class RegisteredAccount:
    @law('C25', 'C02', 'C13')
    def __init__(self, owner, *args, contribution_room=None, contributor=None, inflation_adjust=None, max_inflow_token=None, constants=None, **kwargs):
        """the contribution room is the shared inflow limit"""
        contributor_default = owner
        max_inflow_token_default = type(self).__name__ + '.max_inflow'
        max_inflow_link, max_inflow_limit = self._process_alias_args(contribution_room, contributor, max_inflow_token, kwargs, contributor_default=contributor_default, max_inflow_token_default=max_inflow_token_default)
        super().__init__(*args, owner=owner, max_inflow_link=max_inflow_link, max_inflow_limit=max_inflow_limit, **kwargs)
        self.inflation_adjust = build_inflation_adjust(inflation_adjust)
        if constants is None:
            self.constants = ConstantsCanada(high_precision=self.high_precision)
        else:
            self.constants = constants

    @law('C25')
    @property
    def contributor(self):
        """whose room is used"""
        return self.max_inflow_link.owner

    @law('C25', 'C16')
    @contributor.setter
    def contributor(self, val):
        """only a person can contribute"""
        self.max_inflow_link.owner = val

    @law('C25', 'C13')
    @recorded_property
    def contribution_room(self):
        """the shared inflow limit"""
        return self.max_inflow_limit

    @law('C25', 'C13')
    @contribution_room.setter
    def contribution_room(self, val):
        """write the shared inflow limit"""
        self.max_inflow_limit = val

    @law('C25', 'C01', 'C02', 'C06', 'C13')
    def next_year(self):
        """room is worked out before the year turns, once for the group"""
        first_account = all((account.this_year == self.this_year for account in self.max_inflow_link.group))
        if first_account:
            next_year = self.this_year + 1
            if next_year in self.contribution_room_history:
                contribution_room = self.contribution_room_history[next_year]
            else:
                contribution_room = self.next_contribution_room()
        super().next_year()
        for account in self.max_inflow_link.group:
            while account.this_year < self.this_year:
                account.next_year()
        while self.contributor.this_year < self.this_year:
            self.contributor.next_year()
        if first_account:
            self.contribution_room = contribution_room
            self.max_inflow_limit = contribution_room

    @law('C25')
    def next_contribution_room(self):
        """each kind must say how room grows"""
        raise NotImplementedError('RegisteredAccount: next_contribution_room is not implemented. ' + 'Subclasses must override this method.')

    @law('C25', 'C16')
    def _process_alias_args(self, contribution_room, contributor, max_inflow_token, kwargs, contributor_default=None, max_inflow_token_default=None):
        """the two names of the room must not both be given"""
        if contribution_room is not None and 'max_inflow_limit' in kwargs:
            raise ValueError('cannot pass both `contribution_room` and ' + '`max_inflow_limit explicitly')
        elif 'max_inflow_limit' in kwargs:
            max_inflow_limit = kwargs.pop('max_inflow_limit')
        else:
            max_inflow_limit = contribution_room
        if (contributor is not None or max_inflow_token is not None) and 'max_inflow_link' in kwargs:
            raise ValueError('cannot pass `max_inflow_link` explicitly if either ' + '`contributor` or `max_inflow_token` are provided.')
        elif 'max_inflow_link' in kwargs:
            max_inflow_link = kwargs.pop('max_inflow_link')
        else:
            if contributor is None:
                contributor = contributor_default
            if max_inflow_token is None:
                max_inflow_token = max_inflow_token_default
            max_inflow_link = (contributor, max_inflow_token)
        return (max_inflow_link, max_inflow_limit)
