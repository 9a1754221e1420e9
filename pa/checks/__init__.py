import importlib
import os


def load_all():
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("pa.checks." + f[:-3])
