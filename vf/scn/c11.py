from .c10 import exprs
