from .arith import UNITS, scalars as verify
