from .expr import *


def simplify_call(e):
    return e
