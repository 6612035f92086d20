"""Laws of forecaster.accounts.link (specification text; parsed, never run)."""
# module: forecaster.accounts.link

from collections import namedtuple, abc
from dataclasses import dataclass, field
from typing import Any

class AccountLink:
    @law('C13', 'C15', 'C16')
    def __init__(self, link, default_factory=None):
        """a link is an owner and a token, optionally a starting record"""
        if not isinstance(link, (AccountLink, LinkTuple)):
            if isinstance(link, abc.Sequence):
                link = LinkTuple(*link)
            else:
                raise TypeError('link must be convertible to a tuple')
        if default_factory is None and isinstance(link, AccountLink):
            default_factory = link.default_factory
        self.owner = link.owner
        self.token = link.token
        self.default_factory = default_factory
        if not self.is_registered():
            self.register()

    @law('C13')
    @property
    def data(self):
        """the shared figure is kept with the owner"""
        if self._record is not None:
            return self._record.data
        else:
            return None

    @law('C13')
    @data.setter
    def data(self, val):
        """assigning registers the link first"""
        if self._record is not None:
            self._record.data = val
        else:
            raise AttributeError("link's data member does not point anywhere.")

    @law('C13', 'C15')
    @property
    def group(self):
        """the accounts sharing the link"""
        if self._record is not None:
            return self._record.group
        else:
            return None

    @law('C13', 'C15')
    @property
    def _record(self):
        """one record for each owner and token"""
        if self.is_registered():
            return self.owner.data[self.token]
        else:
            return None

    @law('C13', 'C15')
    @_record.setter
    def _record(self, val):
        """one record for each owner and token"""
        self.owner.data[self.token] = val

    @law('C13', 'C15')
    @_record.deleter
    def _record(self):
        """removing the record"""
        del self.owner.data[self.token]

    @law('C13', 'C15')
    def is_registered(self):
        """registered with the owner under its token"""
        return self.token in self.owner.data

    @law('C13', 'C15', 'C19')
    def register(self):
        """registering twice changes nothing; each record has its own group"""
        if self.is_registered():
            return
        if self.default_factory is None:
            self._record = LinkRecord()
        else:
            self._record = LinkRecord(data=self.default_factory())

    @law('C13', 'C15')
    def unregister(self):
        """unregistering removes the record"""
        if not self.is_registered():
            return
        del self._record

    @law('C13', 'C15')
    def is_linked(self, account):
        """membership in the group"""
        return account in self._record.group

    @law('C13', 'C15')
    def link_account(self, account):
        """join the group once"""
        if not self.is_registered():
            raise KeyError('cannot add account to unregistered link')
        self.group.add(account)

    @law('C13', 'C15')
    def unlink_account(self, account):
        """leave the group"""
        self.group.remove(account)

    @law('C13')
    def __eq__(self, other):
        """same owner and token"""
        return (self.owner, self.token) == (other.owner, other.token)

    @law('C13')
    def __hash__(self):
        """same owner and token"""
        return hash((self.owner, self.token))
