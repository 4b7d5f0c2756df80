REGISTRY = {}


def _reg(module, *pids):
    for p in pids:
        REGISTRY[p] = module


_reg("models", "C01", "C02", "C03", "C04")
_reg("tens", "C05", "C06", "C07")
_reg("proba", "C23", "C24", "C25", "C26")
_reg("skel", "C19", "C20")
_reg("cop", "C21", "C22")
_reg("prep", "C16", "C17", "C18")
_reg("like", "C08", "C09")
_reg("fits", "C10", "C11", "C12", "C14", "C15")
_reg("meta", "C13")
_reg("hist", "C28")
_reg("pure", "C27")
_reg("reject", "C29")
