"""Which harness decides which property, and how it is built.

lib:  'none'  headers only
      'core'  every repository source that does not need the angular-momentum library
      'full'  every repository source (the angular-momentum library is replaced by stub/)
mode: 'plain' ordinary optimised build
      'sched' every memory access instrumented, linked against the controlled scheduler
"""
CHECKS = {}


def check(id, lib="none", mode="plain", rule="", level="model_checking", assumptions=(), main=None,
          wrap=(), extra_src=(), libs=(), driver=None, timeout=(700, 6 * 3600), flags=()):
    CHECKS[id] = dict(id=id, lib=lib, mode=mode, rule=rule, level=level,
                      assumptions=list(assumptions), src=main or f"harness/{id}.cpp",
                      wrap=list(wrap), extra_src=list(extra_src), libs=list(libs), driver=driver,
                      timeout=timeout, flags=list(flags))


import os as _os
exec(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "checks_src.py")).read())
