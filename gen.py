"""Assemble the files the cfg(kani) hooks of /repo include from the sections in /verif/kani.

kani/<module>.<section>.rs becomes `mod <section>` of `crate::<module>::verif` (`common` is
`crate::verif`).  Only the sections a check asks for are assembled, so that a change which
breaks the anchors of one section leaves the others usable."""
import os, re, sys
import families
HERE = os.path.dirname(os.path.abspath(__file__))
MODULES = ["common", "base_node", "node_4", "node_16", "node_48", "node_256", "node_ptr", "lock", "tree", "range_scan", "utils", "stats"]

def expand(t):
    """`//! family X` stands for the harnesses of that family"""
    return re.sub(r" *//! family (\w+)", lambda m: families.lines(m.group(1)), t)

def generate(out, sections):
    os.makedirs(out, exist_ok=True)
    for m in MODULES:
        text = ""
        for s in sections:
            p = os.path.join(HERE, "kani", "%s.%s.rs" % (m, s))
            if os.path.exists(p):
                text += "pub(crate) mod %s {\n#[allow(unused_imports)] use super::super::*;\n%s\n}\n" % (s, expand(open(p).read()))
        q = os.path.join(out, m + ".rs")
        if not os.path.exists(q) or open(q).read() != text:
            open(q, "w").write(text)

if __name__ == "__main__":
    generate(sys.argv[1], sys.argv[2:])
