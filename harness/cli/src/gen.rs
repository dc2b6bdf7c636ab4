//! Random valid histories of DOM commands, one per line, and a model of the DOM a browser builds from them
use crate::html::DomCommand;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    E(String, BTreeMap<String, String>, Vec<u64>),
    T(String),
    C(String),
}
#[derive(Clone, Debug, Default)]
pub struct Dom {
    pub nodes: BTreeMap<u64, N>,
    pub css: Vec<(String, String)>,
}
impl Dom {
    fn detach(&mut self, id: u64) {
        for n in self.nodes.values_mut() {
            if let N::E(_, _, c) = n {
                c.retain(|x| *x != id);
            }
        }
    }
    fn below(&self, top: u64, id: u64) -> bool {
        top == id || matches!(self.nodes.get(&top), Some(N::E(_, _, c)) if c.iter().any(|x| self.below(*x, id)))
    }
    /// false: the command is outside the domain
    pub fn apply(&mut self, c: &DomCommand) -> bool {
        match c {
            DomCommand::CreateNode { id, name } => !self.nodes.contains_key(id) && self.nodes.insert(*id, N::E(name.clone(), BTreeMap::new(), vec![])).is_none(),
            DomCommand::CreateText { id, value } => !self.nodes.contains_key(id) && self.nodes.insert(*id, N::T(value.clone())).is_none(),
            DomCommand::CreateComment { id, value } => !self.nodes.contains_key(id) && self.nodes.insert(*id, N::C(value.clone())).is_none(),
            DomCommand::UpdateText { id, value } => match self.nodes.get_mut(id) {
                Some(N::T(t)) => {
                    *t = value.clone();
                    true
                }
                _ => false,
            },
            DomCommand::SetAttr { id, name, value } => match self.nodes.get_mut(id) {
                Some(N::E(_, a, _)) => {
                    a.insert(name.clone(), value.clone());
                    true
                }
                _ => false,
            },
            DomCommand::RemoveAttr { id, name } => match self.nodes.get_mut(id) {
                Some(N::E(_, a, _)) => {
                    a.remove(name);
                    true
                }
                _ => false,
            },
            DomCommand::RemoveNode { id } => {
                let ok = matches!(self.nodes.get(id), Some(N::E(..)));
                self.detach(*id);
                self.nodes.remove(id);
                ok
            }
            DomCommand::RemoveText { id } => {
                let ok = matches!(self.nodes.get(id), Some(N::T(..)));
                self.detach(*id);
                self.nodes.remove(id);
                ok
            }
            DomCommand::RemoveComment { id } => {
                let ok = matches!(self.nodes.get(id), Some(N::C(..)));
                self.detach(*id);
                self.nodes.remove(id);
                ok
            }
            DomCommand::InsertBefore { parent, child, ref_id } => {
                if !self.nodes.contains_key(child) || self.below(*child, *parent) || *ref_id == Some(*child) {
                    return false;
                }
                match self.nodes.get(parent) {
                    Some(N::E(_, _, c)) if ref_id.map(|r| c.contains(&r)).unwrap_or(true) => {}
                    _ => return false,
                }
                self.detach(*child);
                if let Some(N::E(_, _, c)) = self.nodes.get_mut(parent) {
                    let at = ref_id.and_then(|r| c.iter().position(|x| *x == r)).unwrap_or(c.len());
                    c.insert(at, *child);
                }
                true
            }
            DomCommand::InsertCss { selector, value } => {
                self.css.push((selector.clone(), value.clone()));
                true
            }
            DomCommand::CallbackAdd { id, .. } | DomCommand::CallbackRemove { id, .. } => self.nodes.contains_key(id),
        }
    }
}

const TAGS: &[&str] = &["div", "span", "ul", "li", "br", "my-tag"];
const NAMES: &[&str] = &["class", "id", "data-x", "href", "style"];
const TEXTS: &[&str] = &["", "x", "two words", "<b>&amp;\"'", "żółć", "a\nb"];

pub fn commands(r: &mut hx_core::Rng, len: u64) -> Vec<DomCommand> {
    let mut d = Dom::default();
    let mut out = vec![DomCommand::CreateNode { id: 1, name: "html".into() }];
    d.apply(&out[0]);
    let mut next = 2u64;
    let s = |x: &&str| x.to_string();
    while (out.len() as u64) < len {
        let ids: Vec<u64> = d.nodes.keys().copied().collect();
        let id = *r.pick(&ids);
        let fresh = if r.chance(1, 12) { next + r.below(1 << 40) } else { next };
        let c = match r.below(22) {
            0..=4 => DomCommand::CreateNode { id: fresh, name: s(r.pick(TAGS)) },
            5 | 6 => DomCommand::CreateText { id: fresh, value: s(r.pick(TEXTS)) },
            7 => DomCommand::CreateComment { id: fresh, value: s(r.pick(TEXTS)) },
            8 => DomCommand::UpdateText { id, value: s(r.pick(TEXTS)) },
            9 | 10 => DomCommand::SetAttr { id, name: s(r.pick(NAMES)), value: s(r.pick(TEXTS)) },
            11 => DomCommand::RemoveAttr { id, name: s(r.pick(NAMES)) },
            12..=18 => {
                let parent = *r.pick(&ids);
                let ref_id = match d.nodes.get(&parent) {
                    Some(N::E(_, _, c)) if !c.is_empty() && r.chance(2, 3) => Some(*r.pick(c)),
                    _ => None,
                };
                DomCommand::InsertBefore { parent, child: id, ref_id }
            }
            19 => match d.nodes.get(&id) {
                _ if id == 1 => continue,
                Some(N::E(..)) => DomCommand::RemoveNode { id },
                Some(N::T(..)) => DomCommand::RemoveText { id },
                _ => DomCommand::RemoveComment { id },
            },
            20 => DomCommand::InsertCss { selector: format!(".autocss_{}", r.below(5)), value: s(r.pick(TEXTS)) },
            _ => {
                let event_name = s(r.pick(NAMES));
                let callback_id = r.below(9);
                if r.chance(1, 2) {
                    DomCommand::CallbackAdd { id, event_name, callback_id }
                } else {
                    DomCommand::CallbackRemove { id, event_name, callback_id }
                }
            }
        };
        let mut t = d.clone();
        if t.apply(&c) {
            d = t;
            next = d.nodes.keys().copied().max().unwrap_or(1).max(next) + 1;
            out.push(c);
        }
    }
    out
}
