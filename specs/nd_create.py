from . import tensor
UNITS = tensor.UNITS['create']
verify = tensor.verify_create
