from .elementwise import STOPS, v_binary, v_scalar
UNITS = [('bland/bland/ops/cpu/comparison_cpu.cpp', [r'^bland::elementwise_scalar_op<', r'^bland::elementwise_binary_op<'], STOPS)]


def verify(S):
    v_scalar(S)
    v_binary(S)
