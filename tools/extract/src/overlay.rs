use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Section {
    Raw(String),
    File(String),
}

#[derive(Clone, Default, Debug)]
pub struct FnSpec {
    pub contract: String,
    pub ret: Option<String>,
    pub ret_ty: Option<String>,
    pub attrs: Vec<String>,
    pub external_body: bool,
    pub begin: String,
    pub end: String,
    /// loop number -> invariants text
    pub loops: BTreeMap<usize, String>,
    pub loop_begin: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    /// text placed after the loop
    pub loop_after: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    /// closure number -> (return name and type, ensures text)
    pub closures: BTreeMap<usize, String>,
    /// (let-bound name, occurrence) -> proof
    pub after_let: Vec<(String, usize, String)>,
    /// (pattern without blanks, occurrence) -> proof
    pub arms: Vec<(String, usize, String)>,
    /// (callee name, occurrence) -> proof placed before/after the statement containing the call
    pub before_call: Vec<(String, usize, String)>,
    pub after_call: Vec<(String, usize, String)>,
    pub renames: BTreeMap<String, String>,
    pub opts: BTreeSet<String>,
    /// properties this function's obligations decide directly / support
    pub props: Vec<String>,
    pub support: Vec<String>,
    /// file name of the overlay the contract is from
    pub overlay: String,
}

#[derive(Default)]
pub struct Overlay {
    pub uses: Vec<String>,
    pub order: Vec<Section>,
    pub files: Vec<String>,
    pub fns: BTreeMap<String, FnSpec>,
    pub skip: BTreeSet<String>,
    pub flatten: BTreeSet<String>,
    pub blocks: BTreeMap<String, String>,
    pub type_attrs: BTreeMap<String, String>,
    pub dyn_traits: BTreeSet<String>,
    pub modules: BTreeSet<String>,
    pub derive_hash: BTreeSet<String>,
    /// types whose `From` impls carry contracts
    pub from: BTreeSet<String>,
    pub derive_clone: BTreeSet<String>,
    /// types that contain themselves: `clone` becomes an inherent function, field by field
    pub clone_rec: BTreeSet<String>,
    pub methods: BTreeMap<String, String>,
    pub paths: BTreeMap<String, String>,
    pub types: BTreeMap<String, String>,
    /// (file, identifier) -> identifier used for it in the extracted text
    pub idents: BTreeMap<(String, String), String>,
}

enum Cur {
    None,
    Raw,
    Uses,
    Block(String),
    Contract(String),
    Sub(String, String, Vec<String>),
    TypeAttr(String),
}

impl Overlay {
    pub fn load(paths: &[String]) -> Overlay {
        let mut o = Overlay::default();
        for p in paths {
            let t = std::fs::read_to_string(p).unwrap_or_else(|e| crate::die(format!("{}: {}", p, e)));
            if p.ends_with(".rs") {
                // lemmas: a solver of their own, as for functions
                let mut u = String::new();
                for l in t.lines() {
                    let b = l.trim_start();
                    if b.starts_with("proof fn ") || b.starts_with("broadcast proof fn ") {
                        u.push_str("#[verifier::spinoff_prover] ");
                    }
                    u.push_str(l);
                    u.push('\n');
                }
                o.order.push(Section::Raw(u));
            } else {
                o.load_one(&t, p);
            }
        }
        o
    }

    fn flush(&mut self, cur: &Cur, buf: &mut String) {
        let text = std::mem::take(buf);
        match cur {
            Cur::None => {}
            Cur::Raw => self.order.push(Section::Raw(text)),
            Cur::Uses => self.uses.extend(text.lines().map(|x| x.to_string())),
            Cur::Block(k) => {
                self.blocks.entry(k.clone()).or_default().push_str(&text);
            }
            Cur::TypeAttr(k) => {
                self.type_attrs.entry(k.clone()).or_default().push_str(text.trim());
            }
            Cur::Contract(k) => self.fns.get_mut(k).unwrap().contract.push_str(&text),
            Cur::Sub(k, kind, a) => {
                let f = self.fns.get_mut(k).unwrap();
                let num = |i: usize| a.get(i).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
                match kind.as_str() {
                    "begin" => f.begin.push_str(&text),
                    "end" => f.end.push_str(&text),
                    "loop" => f.loops.entry(num(0)).or_default().push_str(&text),
                    "loop_begin" => f.loop_begin.entry(num(0)).or_default().push_str(&text),
                    "loop_end" => f.loop_end.entry(num(0)).or_default().push_str(&text),
                    "loop_after" => f.loop_after.entry(num(0)).or_default().push_str(&text),
                    "loop_before" => f.loop_before.entry(num(0)).or_default().push_str(&text),
                    "closure" => f.closures.entry(num(0)).or_default().push_str(&text),
                    "after_let" => f.after_let.push((a[0].clone(), num(1), text)),
                    "arm" => f.arms.push((a[0].clone(), num(1), text)),
                    "before_call" => f.before_call.push((a[0].clone(), num(1), text)),
                    "after_call" => f.after_call.push((a[0].clone(), num(1), text)),
                    k => crate::die(format!("overlay: unknown sub-section {}", k)),
                }
            }
        }
    }

    fn load_one(&mut self, t: &str, path: &str) {
        let mut cur = Cur::None;
        let mut buf = String::new();
        let mut curfn = String::new();
        let (mut props, mut support): (Vec<String>, Vec<String>) = (vec![], vec![]);
        for line in t.lines() {
            let tl = line.trim_start();
            if let Some(d) = tl.strip_prefix("//@") {
                self.flush(&cur, &mut buf);
                let w: Vec<String> = d.split_whitespace().map(|x| x.to_string()).collect();
                let rest = |i: usize| w[i..].join(" ");
                cur = Cur::None;
                match w[0].as_str() {
                    "raw" => cur = Cur::Raw,
                    "uses" => cur = Cur::Uses,
                    "file" => {
                        self.files.push(w[1].clone());
                        self.order.push(Section::File(w[1].clone()));
                    }
                    "skip" => {
                        self.skip.insert(rest(1));
                    }
                    "flatten" => self.flatten.extend(w[1..].iter().cloned()),
                    "dyn" => self.dyn_traits.extend(w[1..].iter().cloned()),
                    "modules" => self.modules.extend(w[1..].iter().cloned()),
                    "derive_hash" => self.derive_hash.extend(w[1..].iter().cloned()),
                    "from" => self.from.extend(w[1..].iter().cloned()),
                    "clone_rec" => self.clone_rec.extend(w[1..].iter().cloned()),
                    "derive_clone" => self.derive_clone.extend(w[1..].iter().cloned()),
                    "props" => {
                        let k = w.iter().position(|x| x == "+").unwrap_or(w.len());
                        props = w[1..k].to_vec();
                        support = if k < w.len() { w[k + 1..].to_vec() } else { vec![] };
                    }
                    "method" => {
                        self.methods.insert(w[1].clone(), w[2].clone());
                    }
                    "path" => {
                        self.paths.insert(w[1].clone(), w[2].clone());
                    }
                    "type" => {
                        self.types.insert(w[1].clone(), rest(2));
                    }
                    "ident" => {
                        self.idents.insert((w[1].clone(), w[2].clone()), w[3].clone());
                    }
                    "type_attr" => cur = Cur::TypeAttr(w[1].clone()),
                    "trait" | "impl" => cur = Cur::Block(rest(0)),
                    "fn" => {
                        curfn = w[1].clone();
                        let mut s = FnSpec { props: props.clone(), support: support.clone(), overlay: path.rsplit('/').next().unwrap().to_string(), ..Default::default() };
                        for x in &w[2..] {
                            if let Some(r) = x.strip_prefix("ret=") {
                                s.ret = Some(r.into());
                            } else if let Some(r) = x.strip_prefix("props=") {
                                s.support.extend(s.props.drain(..));
                                s.props = r.split(',').map(|x| x.to_string()).collect();
                            } else if x == "external_body" {
                                s.external_body = true;
                                s.attrs.push("#[verifier::external_body]".into());
                            } else {
                                s.opts.insert(x.clone());
                            }
                        }
                        // a contract given by a later overlay brings a skipped function back
                        self.skip.remove(&format!("fn {}", curfn));
                        if self.fns.insert(curfn.clone(), s).is_some() {
                            crate::die(format!("{}: duplicate contract for {}", path, curfn));
                        }
                        cur = Cur::Contract(curfn.clone());
                    }
                    "attr" => self.fns.get_mut(&curfn).unwrap().attrs.push(rest(1)),
                    "ret_ty" => self.fns.get_mut(&curfn).unwrap().ret_ty = Some(rest(1)),
                    "rename" => {
                        self.fns.get_mut(&curfn).unwrap().renames.insert(w[1].clone(), w[2].clone());
                    }
                    "at" => cur = Cur::Sub(curfn.clone(), w[1].clone(), w[2..].to_vec()),
                    "end" => {}
                    k => crate::die(format!("{}: unknown directive {}", path, k)),
                }
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        self.flush(&cur, &mut buf);
    }
}
