use quote::ToTokens;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use serde_json::{json, Map, Value};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::{Path, PathBuf},
    process::Command,
    sync::atomic::{AtomicUsize, Ordering},
};
use syn::{visit::Visit, visit_mut::VisitMut};

const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
// every module name of any fork, and two that no fork's specification is read from
const MODULES: [&str; 22] = [
    "beacon_block", "beacon_state", "blinded_beacon_block", "blob_sidecar", "block_processing", "bls_to_execution_change", "constants",
    "epoch_processing", "execution_engine", "execution_payload", "fork_choice", "genesis", "helpers", "light_client", "operations",
    "slot_processing", "state_transition", "sync", "validator", "withdrawal", "fork", "presets",
];

pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("genbin-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&d).unwrap();
        Self(d)
    }
    fn src(&self) -> PathBuf {
        self.0.join("ethereum-consensus/src")
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn generator() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).join("../crates/spec-gen/target/debug/spec-gen")
}
fn generate(s: &Scratch, command: &str) -> Result<(), String> {
    let o = Command::new(generator()).arg(command).current_dir(&s.0).output().expect("harness: spec-gen does not start");
    if o.status.success() {
        Ok(())
    } else {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        Err(e.lines().take(3).collect::<Vec<_>>().join(" "))
    }
}

// ---- writing a described tree
fn strs(v: &Value) -> Vec<&str> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect()
}
fn consts(g: &[&str]) -> String {
    if g.is_empty() {
        String::new()
    } else {
        format!("<{}>", g.iter().map(|p| format!("const {p}: usize")).collect::<Vec<_>>().join(", "))
    }
}
fn named(t: &Value) -> String {
    let a = strs(&t["a"]);
    format!("{}{}", t["c"].as_str().unwrap(), if t["h"] == true { format!("<{}>", a.join(", ")) } else { String::new() })
}
fn item(x: &Value) -> String {
    let (n, g) = (x["n"].as_str().unwrap(), strs(&x["g"]));
    let v = if x["v"] == true { "pub " } else { "" };
    match x["k"].as_str().unwrap() {
        "const" => format!("{v}const {n}: usize = 1;\n"),
        "type" => format!("{v}type {n} = u64;\n"),
        "struct" => format!("{v}struct {n}{} {{ pub x: u64 }}\nimpl{} {n}<{}> {{ pub fn get(&self) -> u64 {{ self.x }} }}\n", consts(&g), consts(&g), g.join(", ")),
        "trait" => format!("{v}trait {n}{} {{ fn apply(&self); }}\n", consts(&g)),
        "fn" => {
            let mut gs: Vec<String> = strs(&x["lt"]).iter().map(|l| format!("'{l}")).collect();
            gs.extend(g.iter().map(|p| format!("const {p}: usize")));
            for p in x["tp"].as_array().unwrap() {
                gs.push(format!("{}: {}<{}>", p["n"].as_str().unwrap(), p["b"].as_str().unwrap(), strs(&p["a"]).join(", ")));
            }
            let (mut ins, mut outs, mut body) = (vec![], vec![], vec![format!("\"{}\";", x["b"].as_str().unwrap())]);
            for (k, t) in x["ts"].as_array().unwrap().iter().enumerate() {
                let n = named(t);
                match t["w"].as_str().unwrap() {
                    "ref" => ins.push(format!("x{k}: &{n}")),
                    "path" => ins.push(format!("x{k}: {n}")),
                    "vec" => ins.push(format!("x{k}: Vec<{n}>")),
                    "opt" => ins.push(format!("x{k}: &mut Option<{n}>")),
                    "slice" => ins.push(format!("x{k}: &[{n}]")),
                    "ret" => outs.push(n),
                    "let" => body.push(format!("let _x{k}: {n} = todo!();")),
                    "letref" => body.push(format!("let _x{k}: &{n} = todo!();")),
                    "expr" => body.push(format!("let _ = {}::<{}>::get;", t["c"].as_str().unwrap(), strs(&t["a"]).join(", "))),
                    w => panic!("harness: {w}"),
                }
            }
            for p in x["tp"].as_array().unwrap() {
                ins.push(format!("y{0}: &{0}", p["n"].as_str().unwrap()));
            }
            for l in strs(&x["lt"]) {
                ins.push(format!("z{l}: &'{l} u64"));
            }
            for u in strs(&x["u"]) {
                body.push(format!("let _ = [0u8; {u}];"));
            }
            let ret = match outs.len() {
                0 => String::new(),
                1 => format!(" -> {}", outs[0]),
                _ => format!(" -> ({})", outs.join(", ")),
            };
            let gs = if gs.is_empty() { String::new() } else { format!("<{}>", gs.join(", ")) };
            format!("{v}fn {n}{gs}({}){ret} {{\n{}\n todo!() }}\n", ins.join(", "), body.join("\n"))
        }
        k => panic!("harness: {k}"),
    }
}
fn write(s: &Scratch, a: &Value) {
    for (f, items) in FORKS.iter().zip(a["forks"].as_array().unwrap()) {
        let d = s.src().join(f);
        fs::create_dir_all(&d).unwrap();
        let mut by: BTreeMap<&str, String> = MODULES.iter().map(|m| (*m, "use std::fmt;\npub use crate::other::*;\n".to_string())).collect();
        for x in items.as_array().unwrap() {
            by.get_mut(x["m"].as_str().unwrap()).expect("harness: module").push_str(&item(x));
        }
        for (m, t) in by {
            fs::write(d.join(format!("{m}.rs")), t).unwrap();
        }
    }
}

// ---- reading functions, from sources and from generated modules alike
fn args_of(s: &syn::PathSegment) -> (bool, Vec<String>) {
    match &s.arguments {
        syn::PathArguments::AngleBracketed(g) => (true, g.args.iter().map(|x| x.to_token_stream().to_string()).collect()),
        _ => (false, vec![]),
    }
}
struct Uses<'a> {
    known: &'a BTreeSet<String>,
    w: &'static str,
    ts: Vec<Value>,
}
impl<'a, 'ast> Visit<'ast> for Uses<'a> {
    fn visit_generics(&mut self, _: &'ast syn::Generics) {}
    fn visit_return_type(&mut self, i: &'ast syn::ReturnType) {
        self.within("ret", |s| syn::visit::visit_return_type(s, i));
    }
    fn visit_pat_type(&mut self, i: &'ast syn::PatType) {
        let w = match &*i.ty {
            syn::Type::Reference(_) | syn::Type::Path(_) => "arg",
            _ => "tuple",
        };
        self.within(w, |s| syn::visit::visit_pat_type(s, i));
    }
    fn visit_path_segment(&mut self, i: &'ast syn::PathSegment) {
        let (c, (h, a)) = (i.ident.to_string(), args_of(i));
        if self.known.contains(&c) && (h || self.w != "expr") {
            self.ts.push(json!({"w": self.w, "c": c, "h": h, "a": a}));
        } else {
            syn::visit::visit_path_segment(self, i);
        }
    }
}
impl Uses<'_> {
    fn within(&mut self, w: &'static str, f: impl FnOnce(&mut Self)) {
        let old = std::mem::replace(&mut self.w, w);
        f(self);
        self.w = old;
    }
}
// drops the arguments of known containers
struct Strip<'a>(&'a BTreeSet<String>, bool);
impl VisitMut for Strip<'_> {
    fn visit_path_segment_mut(&mut self, i: &mut syn::PathSegment) {
        if self.1 || self.0.contains(&i.ident.to_string()) {
            i.arguments = syn::PathArguments::None;
        }
        syn::visit_mut::visit_path_segment_mut(self, i);
    }
}
#[derive(Default)]
struct Idents(BTreeSet<String>);
impl<'ast> Visit<'ast> for Idents {
    fn visit_ident(&mut self, i: &'ast syn::Ident) {
        self.0.insert(i.to_string());
    }
}
fn fnv(s: &str) -> String {
    format!("{:016x}", s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)))
}
fn consts_of(g: &syn::Generics) -> Vec<String> {
    g.const_params().map(|p| p.ident.to_string()).collect()
}
fn function(f: &syn::ItemFn, known: &BTreeSet<String>) -> Value {
    let g = consts_of(&f.sig.generics);
    let lt: Vec<String> = f.sig.generics.lifetimes().map(|l| l.lifetime.ident.to_string()).collect();
    let mut tp = vec![];
    for p in f.sig.generics.type_params() {
        let b = p.bounds.iter().find_map(|b| if let syn::TypeParamBound::Trait(t) = b { t.path.segments.last() } else { None });
        let (h, a) = b.map(args_of).unwrap_or_default();
        tp.push(json!({"n": p.ident.to_string(), "b": b.map(|b| b.ident.to_string()).unwrap_or_default(), "h": h, "a": a}));
    }
    let mut v = Uses { known, w: "expr", ts: vec![] };
    v.visit_item_fn(f);
    let mut bare = f.clone();
    Strip(known, false).visit_item_fn_mut(&mut bare);
    let mut ids = Idents::default();
    bare.sig.inputs.iter().for_each(|i| ids.visit_fn_arg(i));
    ids.visit_return_type(&bare.sig.output);
    ids.visit_block(&bare.block);
    let u: Vec<&String> = g.iter().filter(|p| ids.0.contains(*p)).collect();
    // a described function names itself in its first statement; otherwise the body is told by its text
    let b = match f.block.stmts.first() {
        Some(syn::Stmt::Semi(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }), _)) => s.value(),
        _ => {
            let mut bare = f.clone();
            Strip(known, true).visit_item_fn_mut(&mut bare);
            let ins: Vec<String> = bare.sig.inputs.iter().map(|i| i.to_token_stream().to_string()).collect();
            // formatting adds and drops commas, semicolons, braces and spaces
            let text = format!("{ins:?}{}{}", bare.sig.output.to_token_stream(), bare.block.to_token_stream());
            fnv(&text.replace([',', ';', '{', '}', ' ', '\n'], ""))
        }
    };
    json!({"g": g, "lt": lt, "tp": tp, "ts": v.ts, "u": u, "b": b})
}
fn public(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}
fn paths(t: &syn::UseTree, at: String, out: &mut BTreeMap<String, u64>) {
    match t {
        syn::UseTree::Path(p) => paths(&p.tree, format!("{at}{}::", p.ident), out),
        syn::UseTree::Name(n) => *out.entry(format!("{at}{}", n.ident)).or_default() += 1,
        syn::UseTree::Rename(n) => *out.entry(format!("{at}{} as {}", n.ident, n.rename)).or_default() += 1,
        syn::UseTree::Glob(_) => *out.entry(format!("{at}*")).or_default() += 1,
        syn::UseTree::Group(g) => g.items.iter().for_each(|x| paths(x, at.clone(), out)),
    }
}
fn empty(m: Map<String, Value>) -> Value {
    if m.is_empty() {
        json!("empty")
    } else {
        Value::Object(m)
    }
}
fn read(s: &Scratch, known: &BTreeSet<String>) -> Value {
    let mut all = Map::new();
    for f in FORKS {
        let p = s.src().join(f).join("spec/mod.rs");
        let Ok(text) = fs::read_to_string(&p) else {
            all.insert(f.into(), json!("missing"));
            continue
        };
        let Ok(file) = syn::parse_file(&text) else {
            all.insert(f.into(), json!("does not parse"));
            continue
        };
        let (mut uses, mut fns) = (BTreeMap::new(), Map::new());
        for i in &file.items {
            match i {
                syn::Item::Use(u) if public(&u.vis) => paths(&u.tree, String::new(), &mut uses),
                syn::Item::Use(_) => {}
                syn::Item::Fn(x) if public(&x.vis) => {
                    let mut v = function(x, known);
                    v["lt"] = lifetimes(&v["lt"]);
                    v["ts"] = v["ts"].as_array().unwrap().iter().map(|t| json!({"c": t["c"], "a": t["a"]})).collect();
                    v["tp"].as_array_mut().unwrap().iter_mut().for_each(|p| drop(p.as_object_mut().unwrap().remove("h")));
                    v.as_object_mut().unwrap().remove("u");
                    if fns.insert(x.sig.ident.to_string(), v).is_some() {
                        uses.insert(format!("defined twice: {}", x.sig.ident), 2);
                    }
                }
                i => *uses.entry(format!("item {}", fnv(&i.to_token_stream().to_string()))).or_default() += 1,
            }
        }
        all.insert(f.into(), json!({"uses": uses, "fns": empty(fns)}));
    }
    Value::Object(all)
}
fn lifetimes(v: &Value) -> Value {
    empty(strs(v).into_iter().map(|l| (l.to_string(), json!(1))).collect())
}
fn texts(s: &Scratch) -> Vec<Option<String>> {
    FORKS.iter().map(|f| fs::read_to_string(s.src().join(f).join("spec/mod.rs")).ok()).collect()
}
fn outcome(s: &Scratch, known: &BTreeSet<String>) -> Value {
    if let Err(e) = generate(s, "forks") {
        return json!({"panic": e})
    }
    let one = texts(s);
    if let Err(e) = generate(s, "forks") {
        return json!({"panic": e})
    }
    let mut r = read(s, known);
    r["same"] = json!(one == texts(s));
    r
}
pub fn run(a: &Value) -> Value {
    let s = Scratch::new();
    write(&s, a);
    let known = a["forks"].as_array().unwrap().iter().flat_map(|f| f.as_array().unwrap()).filter(|x| x["k"] == "struct" && x["v"] == true);
    let known = known.map(|x| x["n"].as_str().unwrap().to_string()).collect();
    outcome(&s, &known)
}

// ---- the tree of /repo: what its modules define, and what is generated from a copy of them
pub fn real() -> (Value, Value) {
    let s = Scratch::new();
    let repo = Path::new("/repo/ethereum-consensus/src");
    let mut files = vec![];
    let mut known = BTreeSet::new();
    for f in FORKS {
        fs::create_dir_all(s.src().join(f)).unwrap();
        let mut mine = vec![];
        let mut names: Vec<_> = fs::read_dir(repo.join(f)).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|x| x == "rs")).collect();
        names.sort();
        for p in names {
            let m = p.file_stem().unwrap().to_str().unwrap().to_string();
            let text = fs::read_to_string(&p).unwrap();
            fs::write(s.src().join(f).join(format!("{m}.rs")), &text).unwrap();
            if m == "mod" {
                continue
            }
            let file = syn::parse_file(&text).unwrap();
            for i in &file.items {
                if let syn::Item::Struct(x) = i {
                    if public(&x.vis) {
                        known.insert(x.ident.to_string());
                    }
                }
            }
            mine.push((m, file));
        }
        files.push(mine);
    }
    let mut forks = vec![];
    for mine in &files {
        let mut items = vec![];
        for (m, file) in mine {
            for i in &file.items {
                let base = |k: &str, n: &syn::Ident, v: &syn::Visibility, g: Vec<String>| {
                    json!({"k": k, "n": n.to_string(), "m": m, "v": public(v), "g": g, "lt": [], "tp": [], "ts": [], "u": [], "b": ""})
                };
                items.push(match i {
                    syn::Item::Const(x) => base("const", &x.ident, &x.vis, vec![]),
                    syn::Item::Struct(x) => base("struct", &x.ident, &x.vis, consts_of(&x.generics)),
                    syn::Item::Type(x) => base("type", &x.ident, &x.vis, vec![]),
                    syn::Item::Trait(x) => base("trait", &x.ident, &x.vis, consts_of(&x.generics)),
                    syn::Item::Fn(x) => {
                        let mut b = base("fn", &x.sig.ident, &x.vis, vec![]);
                        for (k, v) in function(x, &known).as_object().unwrap() {
                            b[k] = v.clone();
                        }
                        b
                    }
                    _ => continue,
                });
            }
        }
        forks.push(items);
    }
    let r = outcome(&s, &known);
    (json!({"forks": forks}), r)
}

// ---- random trees: what a fork defines speaks of containers as that fork knows them
#[derive(Clone)]
struct Known {
    structs: BTreeMap<String, Vec<String>>,
    traits: BTreeMap<String, Vec<String>>,
}
pub fn random(g: &mut StdRng) -> Value {
    let mut k = Known { structs: BTreeMap::new(), traits: BTreeMap::new() };
    let mut forks = vec![];
    let bare = g.gen_bool(0.3);
    for (i, f) in FORKS.iter().enumerate() {
        let mods: Vec<&str> = MODULES[..20].to_vec();
        // mostly the modules this fork is read from
        let own: Vec<&str> = TABLE[i].split(' ').collect();
        let place = |g: &mut StdRng| if g.gen_bool(0.9) { own.choose(g).unwrap().to_string() } else { mods.choose(g).unwrap().to_string() };
        let read = |m: &str| own.contains(&m);
        let mut items = vec![];
        let mut taken = BTreeSet::new();
        let p = if i == 0 { 0.8 } else { [0.0, 0.15, 0.35][g.gen_range(0..3)] };
        let blank = |k: &str, n: &str, m: &str, v: bool| json!({"k": k, "n": n, "m": m, "v": v, "g": [], "lt": [], "tp": [], "ts": [], "u": [], "b": ""});
        for n in 0..5 {
            let name = format!("Box{n}");
            if !g.gen_bool(p) {
                continue
            }
            let m = place(g);
            let v = g.gen_bool(0.95);
            let mut ps: Vec<&str> = vec!["A", "B", "C", "D", "E", "F"];
            ps.shuffle(g);
            // the last container never takes parameters
            ps.truncate(if n == 4 && bare { 0 } else { g.gen_range(1..4) });
            let mut x = blank("struct", &name, &m, v);
            x["g"] = json!(ps);
            items.push(x);
            if v && read(&m) {
                taken.insert(name.clone());
                k.structs.insert(name, ps.iter().map(|s| s.to_string()).collect());
            }
        }
        for n in 0..2 {
            let Some(of) = k.structs.get("Box0").cloned() else { continue };
            if g.gen_bool(p) {
                let m = place(g);
                let v = g.gen_bool(0.95);
                let name = format!("Walk{n}");
                let mut x = blank("trait", &name, &m, v);
                let ps: Vec<String> = of.into_iter().filter(|_| g.gen_bool(0.7)).collect();
                x["g"] = json!(ps);
                items.push(x);
                if v && read(&m) {
                    k.traits.insert(name, ps);
                }
            }
        }
        for n in 0..6 {
            if g.gen_bool(p) {
                // a few names that may be either kind
                let (kind, name) = if n < 4 { (["const", "type"][n % 2], format!("{}{n}", ["LIMIT", "Alias"][n % 2])) } else { (*["const", "type"].choose(g).unwrap(), format!("Any{n}")) };
                let m = place(g);
                items.push(blank(kind, &name, &m, g.gen_bool(0.9)));
            }
        }
        let mut fns: Vec<String> = (0..9).map(|n| format!("step{n}")).collect();
        fns.extend(["get_attesting_balance", "get_source_deltas", "process_participation_record_updates", "get_unslashed_attesting_indices"].map(String::from));
        for name in fns {
            if !g.gen_bool(p) {
                continue
            }
            let m = place(g);
            let v = g.gen_bool(0.9);
            let mut x = blank("fn", &name, &m, v);
            let (mut ts, mut gs): (Vec<Value>, Vec<String>) = (vec![], vec![]);
            let mut order = vec!["ref", "path", "vec", "opt", "slice"];
            order.shuffle(g);
            order.truncate(g.gen_range(0..3));
            let rest = ["ret", "ret", "let", "letref", "expr"];
            order.extend(rest.iter().filter(|_| g.gen_bool(0.25)));
            let mut tp = vec![];
            let bound = !k.traits.is_empty() && g.gen_bool(0.3);
            if bound {
                order.insert(0, "ref");
            }
            for (j, w) in order.iter().enumerate() {
                let names: Vec<&String> = k.structs.keys().collect();
                let Some(c) = names.choose(g) else { continue };
                let c = if j == 0 && bound { "Box0".to_string() } else { c.to_string() };
                let a = k.structs[&c].clone();
                ts.push(json!({"w": w, "c": c, "h": !a.is_empty(), "a": a}));
                if a.is_empty() && *w == "expr" {
                    ts.pop();
                }
                gs.extend(a);
            }
            if bound {
                let names: Vec<&String> = k.traits.keys().collect();
                for q in 0..g.gen_range(1..3) {
                    let b = names.choose(g).unwrap();
                    let a = k.traits[*b].clone();
                    gs.extend(a.clone());
                    tp.push(json!({"n": format!("T{q}"), "b": b, "h": true, "a": a}));
                }
            }
            let extra: Vec<&str> = ["Y", "Z"].into_iter().filter(|_| g.gen_bool(0.2)).collect();
            gs.extend(extra.iter().map(|s| s.to_string()));
            let mut seen = BTreeSet::new();
            gs.retain(|p| seen.insert(p.clone()));
            gs.shuffle(g);
            x["g"] = json!(gs);
            x["lt"] = json!(["a", "b"].into_iter().filter(|_| g.gen_bool(0.2)).collect::<Vec<_>>());
            x["tp"] = json!(tp);
            x["ts"] = json!(ts);
            x["u"] = json!(extra);
            x["b"] = json!(format!("{f}::{m}::{name}"));
            items.push(x);
        }
        let _ = taken;
        items.shuffle(g);
        forks.push(json!(items));
    }
    json!({"forks": forks})
}
const TABLE: [&str; 6] = [
    "beacon_block beacon_state block_processing constants epoch_processing genesis helpers operations slot_processing state_transition validator",
    "beacon_block beacon_state block_processing constants epoch_processing genesis helpers light_client sync validator",
    "beacon_block beacon_state blinded_beacon_block block_processing epoch_processing execution_payload fork_choice genesis helpers state_transition",
    "beacon_block beacon_state blinded_beacon_block block_processing bls_to_execution_change epoch_processing execution_payload genesis helpers light_client withdrawal",
    "beacon_block beacon_state blinded_beacon_block blob_sidecar block_processing epoch_processing execution_engine execution_payload genesis helpers light_client",
    "beacon_block beacon_state block_processing constants epoch_processing execution_engine execution_payload genesis helpers operations",
];
