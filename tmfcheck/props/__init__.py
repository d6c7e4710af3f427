"""property id -> task generator"""
import importlib

MODULES = {"tmfread": "C01 C03 C04 C05 C18 C19 C24 C27", "tmfwrite": "C08 C09 C10 C21 C22 C28", "mesh": "C13 C14 C20 C23", "effects": "C17", "memory": "C12", "order": "C11", "output": "C06 C07", "objout": "C16 C29", "obj": "C02 C25", "bitpack": "C26", "pairing": "C15"}
LEVEL = {}
TECH = {"*": "abstract interpretation (dataflow) over the compiler's MIR with a relational linear-inequality and symbolic-sequence domain"}
NOTE = {"*": "every obligation counted as discharged holds for all inputs of the stated abstract input (arbitrary bytes, counts, lengths and values), on every path of the current source, in both feature configurations; "
             "obligations the analysis cannot decide are listed as undecided in the evidence and raise no alarm. "
             "Trusts rustc's type checker and MIR, the driver, the models of std functions and the inequality reasoning of tmfcheck/."}
EXPLAIN = {"*": "abstract interpretation of the crate's MIR: every obligation is decided on all paths of the abstract runs; "
                "obligations the analysis could not decide are listed and raise no alarm"}
ASSUME = {"*": ["the models of the standard library functions used by the crate are faithful",
                "allocation never fails and a slice is shorter than 2^47 bytes"]}


def generator(pid):
    for m, ids in MODULES.items():
        if pid in ids.split():
            mod = importlib.import_module("tmfcheck.props." + m)
            LEVEL.update(getattr(mod, "LEVEL", {}))
            EXPLAIN.update(getattr(mod, "EXPLAIN", {}))
            ASSUME.update(getattr(mod, "ASSUME", {}))
            TECH.update(getattr(mod, "TECH", {}))
            NOTE.update(getattr(mod, "NOTE", {}))
            return getattr(mod, pid.lower())
    raise SystemExit("unknown property " + pid)
