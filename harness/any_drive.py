"""Dispatch driving jobs over several drivers, so that they share one pool."""
import importlib


def drive(driver, **kw):
    return importlib.import_module(driver).drive(**kw)
