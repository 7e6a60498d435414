//! C16: names of any kind link to what they were declared for.
use crate::calls::note_bridge;
use crate::prog;
use bgen::gen::{bridge, Profile};
use bgen::render::Text;
use pbt::{Entry, Prop, Src};

pub fn entry() -> Entry {
    Entry {
        id: "C16",
        rule: "A case is a program of one to three bridge modules with colliding, renamed, raw, overloaded and namespaced names, whose functions are all called from the other language; non-trivial when some name is renamed or some namespace differs from its module's.",
        assumptions: &["Which function runs is told by its number in the event log; C++ code refers to every item by its declared qualified name."],
        props: vec![Prop { name: "naming", quick: 96, thorough: 2000, f: naming }],
    }
}

fn naming(s: &mut Src) -> Result<(), String> {
    let mut p = Profile::calls();
    p.structs = (0, 3);
    p.enums = (0, 2);
    p.rusts = (0, 3);
    p.cxxs = (0, 3);
    p.trivials = (0, 1);
    p.fns = (3, 24);
    p.fields = (1, 3);
    p.fancy = true;
    p.namespaces = true;
    p.noise = s.chance(1, 4);
    p.lifetimes = s.chance(1, 4);
    p.recursion = s.coin();
    p.simple_sigs = s.chance(3, 4);
    p.external = s.chance(1, 4);
    p.derives = s.coin();
    let n = s.weighted(&[3, 2, 1]) + 1;
    let mut mods = Vec::new();
    let mut used: Vec<(Vec<String>, String)> = Vec::new();
    let mut nontrivial = n > 1;
    for i in 0..n {
        let mut b = bridge(s, &p);
        // Modules of one program may not share C++ entities: a common outer
        // namespace per module, except where names differ anyway.
        let names: Vec<(Vec<String>, String)> = b.types.iter().map(|t| &t.name).chain(b.fns.iter().filter(|f| f.recv.is_none()).map(|f| &f.name)).flat_map(|n| {
            let mut v = vec![(n.ns.clone(), n.cxx.clone()), (n.ns.clone(), n.rust.clone())];
            for i in 0..n.ns.len() { v.push((n.ns[..i].to_vec(), n.ns[i].clone())); }
            v
        }).collect();
        if i > 0 && names.iter().any(|x| used.contains(x)) {
            let outer = format!("m{i}");
            b.ns.insert(0, outer.clone());
            for t in &mut b.types { t.name.ns.insert(0, outer.clone()); }
            for f in &mut b.fns { f.name.ns.insert(0, outer.clone()); }
        } else {
            used.extend(names);
        }
        nontrivial |= b.types.iter().map(|t| &t.name).chain(b.fns.iter().map(|f| &f.name)).any(|n| n.rust != n.cxx || n.ns != b.ns);
        mods.push(Text::new(b, &i.to_string(), 1 + 1000 * i as u32));
    }
    for m in &mods {
        note_bridge(s, m);
    }
    if nontrivial {
        s.nontrivial();
    }
    let seed = s.below(1 << 32);
    prog::exercise(&mods, 2, seed)?;
    Ok(())
}
