"""Shared helpers of the checks."""
from sa.core import *

HEAP = "uima::lowlevel::FSHeap::"
TS = "uima::lowlevel::TypeSystem::"
KINDS = ["Int", "Float", "Boolean", "Byte", "Short", "Long", "Double"]
def typeconst(prog, name):
    q = "uima::internal::" + name
    v = prog.gcv.get(q)
    if v is None: raise AnalysisBroken("built-in type code %s not found" % q)
    return v
KTYPE = {"Int": "gs_tyIntegerType", "Float": "gs_tyFloatType", "Boolean": "gs_tyBooleanType", "Byte": "gs_tyByteType",
         "Short": "gs_tyShortType", "Long": "gs_tyLongType", "Double": "gs_tyDoubleType"}

def iscall(f, q, args=None):
    return f is not None and f[0] == "call" and f[1] == q and (args is None or f[3] == args)

def has_b(facts, pred, pol=True):
    k = "b" if pol else "nb"
    return any(x[0] == k and pred(x[1]) for x in facts)

def num(prog, f):
    """integer value of a constant form"""
    if f is None: return None
    d, c = lin(f, prog)
    return c if not d else None

def holds_eq(facts, a, b, prog, pol=True):
    """facts establish a == b (or a != b)"""
    at = atom(("cmp", "==", a, b), prog)
    return at is not None and holds(facts, at[0], at[1]) is pol
