"""fill: public function to kernel, and the kernel itself (P01 relies on it for initial values)"""
from .elementwise import UNITS_UNARY, v_assign
from .unary_dispatch import UNITS as DISPATCH, fills
UNITS = DISPATCH[:1] + [(DISPATCH[1][0], [r'^bland::fill<'], DISPATCH[1][2]),
                        (DISPATCH[2][0], [r'^bland::cpu::fill<', r'^bland::cpu::assignment_op<'], sorted(set([s for s in DISPATCH[2][2] if 'assignment_op' not in s] + UNITS_UNARY[0][2])))]


def verify(S):
    fills(S)
    v_assign(S)
