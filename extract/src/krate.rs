//! What the crate declares: types, functions.
use crate::ty::*;
use std::collections::HashMap;
use syn::*;

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub name: String,
    pub ret: Ty,
    pub sig: Signature,
    pub block: Block,
}

#[derive(Default)]
pub struct Krate {
    /// fields in order; tuple structs have "0", "1", ...
    pub structs: HashMap<String, Vec<(String, Ty)>>,
    pub enums: HashMap<String, Vec<(String, Vec<Ty>)>>,
    pub fns: Vec<FnInfo>,
    pub trait_fns: HashMap<String, Ty>,
    pub defaults: Vec<String>,
}

impl Krate {
    pub fn field_ty(&self, s: &str, f: &str) -> Option<Ty> {
        if let Some(fs) = self.structs.get(s) { return fs.iter().find(|x| x.0 == f).map(|x| x.1.clone()); }
        let mut found: Option<Ty> = None;
        for fs in self.structs.values() {
            if let Some(x) = fs.iter().find(|x| x.0 == f) {
                match &found { Some(t) if *t != x.1 => return None, _ => found = Some(x.1.clone()) }
            }
        }
        found
    }
    pub fn variant(&self, e: &str, v: &str) -> Option<&Vec<Ty>> { self.enums.get(e)?.iter().find(|x| x.0 == v).map(|x| &x.1) }
    pub fn fn_ret(&self, self_ty: Option<&str>, name: &str) -> Option<Ty> {
        self.fns.iter().find(|f| f.self_ty.as_deref() == self_ty && f.name == name && f.trait_name.is_none()).map(|f| f.ret.clone())
    }
    pub fn trait_fn_ret(&self, name: &str) -> Option<Ty> { self.trait_fns.get(name).cloned() }
    pub fn any_method_ret(&self, name: &str) -> Option<Ty> {
        let mut found: Option<Ty> = None;
        for f in self.fns.iter().filter(|f| f.name == name && f.self_ty.is_some()) {
            match &found { Some(t) if *t != f.ret => return None, _ => found = Some(f.ret.clone()) }
        }
        found
    }
    pub fn find_fn(&self, self_ty: Option<&str>, name: &str) -> Option<&FnInfo> {
        self.fns.iter().find(|f| f.self_ty.as_deref() == self_ty && f.name == name && f.trait_name.is_none())
    }
    pub fn find_method(&self, head: &str, name: &str) -> Option<&FnInfo> {
        if let Some(f) = self.find_fn(Some(head), name) { return Some(f); }
        if !head.is_empty() { return None; }
        let mut c = self.fns.iter().filter(|f| f.name == name && f.self_ty.is_some() && f.trait_name.is_none());
        match (c.next(), c.next()) { (Some(f), None) => Some(f), _ => None }
    }
}
