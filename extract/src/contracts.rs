//! The contract files: what is specified for each function, by name.
use std::collections::{BTreeMap, HashMap};

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub external: bool,
    pub skip: bool,
    pub inline: bool,
    pub hide: Vec<String>,
    pub sig: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub types: HashMap<String, String>,
    /// (kind, key) -> text; kind in start, loop, loop-pre, loop-start, loop-end, loop-post, arm, before, after
    pub hints: BTreeMap<(String, String), String>,
}

#[derive(Default)]
pub struct Contracts {
    pub fns: HashMap<String, Contract>,
    /// trait -> types its blanket impl is instantiated for
    pub mono: HashMap<String, Vec<String>>,
    /// text added inside a trait declaration
    pub traits: HashMap<String, String>,
    /// text added inside each impl of a trait, $T is the type
    pub impls: HashMap<String, String>,
    /// type -> attributes
    pub type_attrs: HashMap<String, String>,
    pub skip_types: Vec<String>,
    pub skip_files: Vec<String>,
    /// files whose functions are verified in another unit: their contracts are assumed here
    pub extern_files: Vec<String>,
    pub grammar: bool,
}

/// `@for X in a b c` ... `@endfor`: the lines between, once for each, with $X replaced and $#X by its position.
fn expand_for(text: &str) -> String {
    let mut out = String::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        if let Some(r) = lines[i].strip_prefix("@for ") {
            let (names, vals) = r.split_once(" in ").expect("@for X in ...");
            let names: Vec<&str> = names.split(',').collect();
            let mut j = i + 1;
            while !lines[j].starts_with("@endfor") {
                j += 1;
            }
            for (k, v) in vals.split_whitespace().enumerate() {
                let vs: Vec<&str> = v.split(',').collect();
                for l in &lines[i + 1..j] {
                    let mut l = l.to_string();
                    for (n, v) in names.iter().zip(vs.iter()) {
                        l = l.replace(&format!("$#{}", n), &k.to_string()).replace(&format!("${}", n), v);
                    }
                    out.push_str(&l);
                    out.push('\n');
                }
            }
            i = j + 1;
        } else {
            out.push_str(lines[i]);
            out.push('\n');
            i += 1;
        }
    }
    out
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Contracts {
    pub fn read(&mut self, text: &str, file: &str) {
        let text = expand_for(text);
        let mut cur: Option<String> = None;
        let mut slot: Option<(String, String)> = None;
        let mut in_trait: Option<(bool, String)> = None;
        for (n, line) in text.lines().enumerate() {
            if let Some(d) = line.strip_prefix('@') {
                let (word, arg) = match d.split_once(char::is_whitespace) {
                    Some((w, a)) => (w, a.trim()),
                    None => (d.trim(), ""),
                };
                slot = None;
                match word {
                    "fn" => {
                        in_trait = None;
                        assert!(!self.fns.contains_key(arg), "{}: second contract for {}", file, arg);
                        self.fns.insert(arg.to_string(), Contract::default());
                        cur = Some(arg.to_string());
                    }
                    "mono" => {
                        let mut w = arg.split_whitespace();
                        let t = w.next().unwrap().to_string();
                        self.mono.insert(t, w.map(String::from).collect());
                    }
                    "trait" => in_trait = Some((true, arg.to_string())),
                    "impl" => in_trait = Some((false, arg.to_string())),
                    "typeattr" => {
                        let (t, a) = arg.split_once(' ').unwrap();
                        self.type_attrs.insert(t.to_string(), a.to_string());
                    }
                    "skipfile" => self.skip_files.push(arg.to_string()),
                    "externfile" => self.extern_files.push(arg.to_string()),
                    "grammar" => self.grammar = true,
                    "skiptype" => self.skip_types.push(arg.to_string()),
                    _ => {
                        let c = self.fns.get_mut(cur.as_ref().unwrap_or_else(|| panic!("{}:{}: directive outside of @fn", file, n + 1))).unwrap();
                        match word {
                            "external" => c.external = true,
                            "skip" => c.skip = true,
                            "inline" => c.inline = true,
                            "sig" => c.sig = Some(arg.to_string()),
                            "attr" => c.attrs.push(arg.to_string()),
                            "type" => {
                                let (k, v) = arg.split_once(' ').unwrap();
                                c.types.insert(k.to_string(), v.to_string());
                            }
                            "spec" => slot = Some(("spec".into(), String::new())),
                            "start" => slot = Some(("start".into(), String::new())),
                            "hide" => c.hide.push(arg.to_string()),
                            "loop" => {
                                let (key, part) = match arg.rsplit_once(' ') {
                                    Some((k, p)) if ["pre", "start", "end", "post"].contains(&p) => (k, format!("loop-{}", p)),
                                    _ => (arg, "loop".to_string()),
                                };
                                slot = Some((part, norm(key)));
                            }
                            "arm" | "before" | "after" | "armend" => slot = Some((word.to_string(), norm(arg))),
                            w => panic!("{}:{}: unknown directive @{}", file, n + 1, w),
                        }
                    }
                }
                continue;
            }
            if let Some((t, name)) = &in_trait {
                let m = if *t { &mut self.traits } else { &mut self.impls };
                let e = m.entry(name.clone()).or_default();
                e.push_str(line);
                e.push('\n');
                continue;
            }
            if line.trim_start().starts_with("--") {
                continue;
            }
            match (&slot, &cur) {
                (Some((k, key)), Some(f)) => {
                    let c = self.fns.get_mut(f).unwrap();
                    let t = if k == "spec" { &mut c.spec } else { c.hints.entry((k.clone(), key.clone())).or_default() };
                    t.push_str(line);
                    t.push('\n');
                }
                _ => assert!(line.trim().is_empty(), "{}:{}: text outside of a directive", file, n + 1),
            }
        }
    }
}
