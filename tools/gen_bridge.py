#!/usr/bin/env python3
"""Writes codec/src/table.rs, the list of the types of the expected layout."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "py"))
sys.dont_write_bytecode = True
import pdl
L = pdl.Layout()
o = ["// Written by tools/gen_bridge.py.", "use super::*;", ""]
o.append("pub fn decode(name: &str, data: &[u8]) -> Option<String> {")
o.append("    Some(match name {")
for d in L.decls.values():
    up = [a.name for a in L.chain(d.name)[:-1]]
    back = [d.parent] if d.parent else []
    o.append('        "%s" => one::<uci::%s>(data, |p, out| {' % (d.name, d.name))
    if not up:
        o.append("            let _ = (p, out);")
    for a in up:
        o.append('            up::<uci::%s, uci::%s>(p, "%s", out);' % (d.name, a, a))
    for a in back:
        o.append('            back::<uci::%s, uci::%s>(p, "%s", out);' % (d.name, a, a))
    o.append("        }),")
o += ["        _ => return None,", "    })", "}", ""]
o.append("pub fn specialize(name: &str, data: &[u8]) -> Option<String> {")
o.append("    Some(match name {")
roots = [d.name for d in L.decls.values() if d.children and not d.parent]
for r in roots:
    o.append('        "%s" => root(data, leaf_%s),' % (r, r))
o += ["        _ => return None,", "    })", "}", ""]
for d in L.decls.values():
    if d.kind != "packet" or not (d.parent or d.children):
        continue
    o.append("#[allow(non_snake_case)]")
    o.append("fn leaf_%s(p: &uci::%s) -> String {" % (d.name, d.name))
    if not d.children:
        o.append('    format!("%s {p:?}")' % d.name)
    else:
        o.append("    match p.specialize() {")
        for c in d.children:
            o.append("        Ok(uci::%sChild::%s(c)) => leaf_%s(&c)," % (d.name, c, c))
        o.append('        Ok(uci::%sChild::None) => format!("%s {p:?}"),' % (d.name, d.name))
        o.append('        Err(_) => format!("!%s {p:?}"),' % d.name)
        o.append("    }")
    o += ["}", ""]
o.append("pub fn enums(f: &mut impl FnMut(&str, u64, Option<(String, u64)>)) {")
for e in L.enums.values():
    t = 8
    o.append("    for v in 0..=255u8 {")
    o.append('        f("%s", v as u64, uci::%s::try_from(v).ok().map(|x| (format!("{x:?}"), u8::from(x) as u64)));' % (e.name, e.name))
    o.append("    }")
o += ["}", ""]
open(os.path.join(V, "codec/src/table.rs"), "w").write("\n".join(o))
