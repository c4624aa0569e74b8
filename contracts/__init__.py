import importlib
import os


def load():
    from irv import contract
    if not contract.GOALS:
        d = os.path.dirname(os.path.abspath(__file__))
        for n in sorted(os.listdir(d)):
            if n.startswith('c_') and n.endswith('.py'):
                importlib.import_module('contracts.' + n[:-3])
    return contract.GOALS
