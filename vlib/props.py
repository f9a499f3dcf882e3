"""Which specifications and which cases decide which property."""
from . import calc, conv, extract, gen, host, interp, iso, lex, peg, qlang, script, tpl, tplgen

CHECKS = {}
ASSUME = {}
NOTES = {}
TECHNIQUE = {}


def register(mod):
    CHECKS.update(mod.CHECKS)
    for name, d in (('ASSUME', ASSUME), ('NOTES', NOTES), ('TECHNIQUE', TECHNIQUE)):
        d.update(getattr(mod, name, {}))


for mod in (lex, peg, tpl, interp, calc, extract, qlang, gen, script, iso, host, conv, tplgen):
    register(mod)
