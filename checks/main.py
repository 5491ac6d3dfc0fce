import importlib, sys, traceback
MODULES = {"c01_c03": ["C01", "C02", "C03"], "c04_c07": ["C04", "C05", "C06", "C07"],
           "c08_c12": ["C08", "C09", "C10", "C11", "C12"],
           "c13_c17": ["C13", "C14", "C15", "C16", "C17"],
           "c18": ["C18"], "c19_c24": ["C19", "C20", "C24"], "c21_c22": ["C21", "C22"], "c25": ["C25"], "c26": ["C26"], "c27": ["C27", "C28"], "c29": ["C29"]}
prop = sys.argv[1]
mod = next(m for m, ps in MODULES.items() if prop in ps)
try:
    getattr(importlib.import_module(mod), prop.lower())()
except SystemExit:
    raise
except BaseException as e:
    traceback.print_exc()
    import time
    import pymon
    if isinstance(e, Exception) and pymon.raised_by_code(e):
        m = pymon.Mon(prop)
        try:
            m.violation(f"valid use raised {type(e).__name__} in the code under test", trace=traceback.format_exc()[-1500:])
        except pymon.Stop:
            pass
        pymon.finish(m, time.time(), "uncaught exception")
    print("INCONCLUSIVE: the check itself failed")
    sys.exit(2)
