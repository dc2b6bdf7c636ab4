//! The DOM a browser builds from the batches of commands it is sent
use crate::J;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Kind {
    Element(String),
    Text(String),
    Comment,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub kind: Kind,
    pub children: Vec<u64>,
    pub parent: Option<u64>,
}
#[derive(Default, Debug)]
pub struct Dom {
    pub nodes: BTreeMap<u64, Node>,
}
fn num(j: Option<&J>) -> Result<u64, String> {
    match j {
        Some(J::Num(b)) => Ok(f64::from_bits(*b) as u64),
        x => Err(format!("not a number: {x:?}")),
    }
}
fn text(j: Option<&J>) -> Result<String, String> {
    match j {
        Some(J::Str(s)) => Ok(s.clone()),
        x => Err(format!("not a string: {x:?}")),
    }
}
impl Dom {
    fn detach(&mut self, id: u64) {
        if let Some(p) = self.nodes.get_mut(&id).and_then(|n| n.parent.take()) {
            if let Some(p) = self.nodes.get_mut(&p) {
                p.children.retain(|c| *c != id);
            }
        }
    }
    pub fn apply(&mut self, c: &J) -> Result<(), String> {
        let J::Obj(o) = c else { return Err(format!("not a command: {c:?}")) };
        let kind = text(o.get("type"))?;
        let make = |kind| Node { kind, children: vec![], parent: None };
        match kind.as_str() {
            "create_node" => {
                self.nodes.insert(num(o.get("id"))?, make(Kind::Element(text(o.get("name"))?)));
            }
            "create_text" => {
                self.nodes.insert(num(o.get("id"))?, make(Kind::Text(text(o.get("value"))?)));
            }
            "create_comment" => {
                self.nodes.insert(num(o.get("id"))?, make(Kind::Comment));
            }
            "update_text" => match self.nodes.get_mut(&num(o.get("id"))?) {
                Some(Node { kind: Kind::Text(t), .. }) => *t = text(o.get("value"))?,
                _ => return Err(format!("no such text: {c:?}")),
            },
            "remove_node" | "remove_text" | "remove_comment" => {
                let id = num(o.get("id"))?;
                self.detach(id);
                let Some(n) = self.nodes.remove(&id) else { return Err(format!("removed twice: {c:?}")) };
                for k in n.children {
                    if let Some(k) = self.nodes.get_mut(&k) {
                        k.parent = None;
                    }
                }
            }
            "insert_before" => {
                let (parent, child) = (num(o.get("parent"))?, num(o.get("child"))?);
                if !self.nodes.contains_key(&child) {
                    return Err(format!("no such child: {c:?}"));
                }
                self.detach(child);
                let at = match o.get("ref_id") {
                    Some(J::Num(b)) => Some(f64::from_bits(*b) as u64),
                    _ => None,
                };
                let Some(p) = self.nodes.get_mut(&parent) else { return Err(format!("no such parent: {c:?}")) };
                let at = match at {
                    Some(r) => p.children.iter().position(|x| *x == r).ok_or(format!("the reference is not a child: {c:?}"))?,
                    None => p.children.len(),
                };
                p.children.insert(at, child);
                if let Some(n) = self.nodes.get_mut(&child) {
                    n.parent = Some(parent);
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// all the text below a node
    pub fn text(&self, id: u64) -> String {
        match self.nodes.get(&id) {
            Some(Node { kind: Kind::Text(t), .. }) => t.clone(),
            Some(n) => n.children.iter().map(|c| self.text(*c)).collect(),
            None => String::new(),
        }
    }
    /// what is to be seen among the children: "name:text" for an element, ":text" for a text
    pub fn seen(&self, id: u64) -> Vec<String> {
        let Some(n) = self.nodes.get(&id) else { return vec![] };
        n.children
            .iter()
            .filter_map(|c| match &self.nodes.get(c)?.kind {
                Kind::Element(name) => Some(format!("{name}:{}", self.text(*c))),
                Kind::Text(t) => Some(format!(":{t}")),
                Kind::Comment => None,
            })
            .collect()
    }
}
