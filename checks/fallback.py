"""When a building block that a check names is no longer there under that name, its property is decided by what it does to
the public functions."""
import common
import props_num
import props_text
from common import Check


def numeric(pid, err):
    chk = Check(pid)
    chk.notes.append("building block not found under its name, decided through the public functions: " + err[:300])
    combos = [("ne", "even", 60, 60, 4), ("az", "even", 3, 6, 24), ("tz", "dnc", 3, 6, 24)]
    kinds = {"inside", "shortest", "closest"}
    return props_num.decide(chk, combos, kinds, kinds | {"crash"}, timeout_ms=1000, task_s=8, limit=120)


def text(pid, err):
    chk = Check(pid)
    chk.notes.append("writer not found under its name, decided through the public functions: " + err[:300])
    chk.assumptions = props_text.ASSUME
    kinds = {"forward", "text", "end"} if pid == "C10" else {"forward"} if pid == "C21" else {"bounds"}
    combos = [("d", 0, None, None), ("d", 1, "naz", "up"), ("f", 0, "az", "even"), ("f", 1, None, None)]
    props_text.end_to_end(chk, combos, {"d": (10, 128), "f": (10, 32)}, kinds, limit=120)
    return chk.finish()


HOW = {"C10": text, "C12": text, "C21": text, "C16": numeric, "C17": numeric, "C18": numeric, "C19": numeric}


def decide(pid, f):
    try:
        return f()
    except common.BuildError as ex:
        if pid not in HOW:
            raise
        print("%s: %s" % (pid, str(ex)[:200]))
        return HOW[pid](pid, str(ex))
