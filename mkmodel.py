#!/usr/bin/env python3
"""Freezes the AAF class and type model (run once, on the pinned tree, by hand).

sim/model.json is the independent copy of the model that the simulator's reader, generators and
audits use; checks never regenerate it.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    sys.path.insert(0, "/repo/src")
    import aaf2
    from aaf2 import types as T
    from aaf2.model import classdefs as cd
    out = {"classes": {}, "types": {}}
    for ext in (False, True):
        f = aaf2.open(extensions=ext)
        md = f.metadict
        for c in md.classdefs_by_auid.values():
            d = out["classes"].setdefault(c.class_name, {
                "auid": str(c.auid), "parent": c.parent.class_name if c.parent else None,
                "concrete": c.concrete, "props": [], "ext": ext, "py": md.lookup_class(c.auid).__name__})
            have = set(p["auid"] for p in d["props"])
            for p in c.propertydefs:
                if str(p.auid) not in have:
                    d["props"].append({"name": p.property_name, "auid": str(p.auid), "pid": None if ext else p.pid,
                                       "type": str(p.typedef.auid), "optional": p.optional, "unique": bool(p.unique),
                                       "ext": ext})
        for t in md.typedefs_by_auid.values():
            k = str(t.auid)
            n = {"name": t.type_name, "ext": out["types"].get(k, {}).get("ext", ext)}
            cls = type(t).__name__[7:]
            n["kind"] = cls
            if cls == "Int":
                n.update(size=t.size, signed=t.signed)
            elif cls == "Enum":
                n.update(elem=str(t.element_typedef.auid), values=sorted([v, nm] for v, nm in t.elements.items()))
            elif cls == "ExtEnum":
                n.update(values=sorted([str(v), nm] for v, nm in t.elements.items()))
            elif cls == "Record":
                n.update(fields=[[nm, str(x.auid)] for nm, x in zip(t.member_names, t.member_types.value)])
            elif cls in ("FixedArray", "VarArray", "Set", "String"):
                n.update(elem=str(t.element_typedef.auid))
                if cls == "FixedArray":
                    n.update(count=t.size)
            elif cls == "Rename":
                n.update(elem=str(t.renamed_typedef.auid))
            elif cls == "StrongRef":
                n.update(cls=t.ref_classdef.class_name)
            elif cls == "WeakRef":
                n.update(cls=t.ref_classdef.class_name, path=[str(x) for x in t.target_set_path])
            elif cls == "GenericCharacter":
                n.update(size=t.size)
            old = out["types"].get(k)
            if old is not None and old != n:
                old["ext_values"] = n.get("values")
            else:
                out["types"][k] = n
    with open(os.path.join(HERE, "sim", "model.json"), "w") as fp:
        json.dump(out, fp, indent=0, sort_keys=True)
        fp.write("\n")
    print(len(out["classes"]), len(out["types"]))


main()
