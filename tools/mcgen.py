"""Writes the instance module and configuration of an MCOps exploration."""
import os
NONE = -999999
DEF = dict(Ops=["mxm"], DN=[1], DK=[1], DL=[1], EC=[NONE, 1], EA=[NONE, 1, 2], EB=[NONE, 3],
           EM=[NONE, 0, 1], MKs=["none"], ACCs=["no"], Zs=["merge"], TAs=[False], TBs=[False],
           MULs=["minus"], ADDs=["plus"], UNs=["inc"], Aliases=["none"], ErrDims=False, TSN="T_I")
LAWS = ["MaskLaw", "PartitionLaw", "ViewLaw", "AliasLaw", "DefLaw", "FrameLaw", "ShapeLaw", "ConvLaw", "DomainLaw"]

def lit(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (list, tuple)): return "{" + ", ".join(lit(x) for x in v) + "}"
    return str(v)

def write(dir, name, conf, module="MCOps", laws=LAWS, defaults=DEF):
    d = dict(defaults); d.update(conf)
    with open(os.path.join(dir, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n" % (name, module))
        for k, v in d.items(): f.write("c_%s == %s\n" % (k, lit(v)))
        f.write("====\n")
    with open(os.path.join(dir, name + ".cfg"), "w") as f:
        f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nCONSTANTS\n" % " ".join(laws))
        for k in d: f.write(" %s <- c_%s\n" % (k, k))
