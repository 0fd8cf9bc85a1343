from .arith import UNITS, arrays as verify
