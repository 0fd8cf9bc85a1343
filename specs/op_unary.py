from .opstructs import UNITS as U, v_unary as verify
UNITS = U['unary']
