REGISTRY, NOTES = {}, {}
from . import drivers, calc, space, ldlt, lmi, lowpass, profit, small, arrs, numeric, runs, errors, progress  # noqa
for mod in (drivers, calc, space, ldlt, lmi, lowpass, profit, small, arrs, numeric, runs, errors, progress):
    for prop, fn in mod.CHECKS.items():
        REGISTRY[prop] = (fn, "model_checking")
        NOTES[prop] = mod.NOTES[prop]
