"""A user class with lazy getters, as the pickle laws quantify over."""
import numpy as np
from pwtools.base import FlexibleGetters


class Lazy(FlexibleGetters):
    def __init__(self, a=None, lst=None, dct=None):
        self.attr_lst = ['a', 'b']
        self.a, self.lst, self.dct = a, lst, dct
        self.init_attr_lst(['b'])

    def get_b(self):
        return self.a * 2 if self.is_set_attr('a') else None


def make(rng):
    return Lazy(a=rng.choice([None, 3, 2.5, np.arange(4.0), np.zeros((0, 2))]), lst=['x', [1, None]], dct={'k': 1, 'é': np.ones(2)})
