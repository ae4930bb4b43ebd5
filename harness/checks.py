"""Registry of checks."""
import importlib
GROUPS = {"checks_stream": ("C01", "C02", "C03", "C04", "C05"), "checks_socket": ("C07", "C08", "C09", "C10"),
          "checks_msg": ("C06", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C24", "C25", "C27"),
          "checks_geo": ("C30",), "checks_use": ("C31", "C32", "C33", "C34", "C35"), "checks_help": ("C19", "C20", "C22", "C23", "C28", "C29"), "checks_state": ("C21", "C26", "C36")}


def run(prop):
    for mod, ids in GROUPS.items():
        if prop in ids:
            return getattr(importlib.import_module(mod), prop.lower())()
    raise SystemExit("unknown property " + prop)
