//! Reference model of registration and routing: a plain tree of whole segments. Deliberately naive.
use crate::sut::Op;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Node {
    pub seg: String,
    /// a handler or a middleware was registered for exactly this path
    pub registered: bool,
    pub handlers: BTreeMap<u8, u32>,
    pub mws: Vec<u32>,
    pub children: Vec<Node>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Reject {
    Malformed,
    Ambiguous,
    Duplicate,
    Mount,
}

fn is_param(s: &str) -> bool {
    s.starts_with(':')
}

pub fn segs(path: &str) -> Vec<&str> {
    path.split('/').filter(|s| !s.is_empty()).collect()
}

fn validate(path: &str) -> Result<Vec<&str>, Reject> {
    let v = segs(path);
    for (i, s) in v.iter().enumerate() {
        if s.contains('*') && (*s != "*" || i + 1 != v.len()) {
            return Err(Reject::Malformed);
        }
    }
    Ok(v)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hit {
    pub handler: u32,
    pub mws: Vec<u32>,
    pub params: Vec<(String, String)>,
}

impl Node {
    fn walk(&mut self, path: &str) -> Result<&mut Node, Reject> {
        let mut cur = self;
        for s in validate(path)? {
            let clash = !cur.children.is_empty() && (is_param(s) || is_param(&cur.children[0].seg));
            match cur.children.iter().position(|c| c.seg == s) {
                Some(i) => cur = &mut cur.children[i],
                None if clash => return Err(Reject::Ambiguous),
                None => {
                    cur.children.push(Node { seg: s.to_string(), ..Node::default() });
                    cur = cur.children.last_mut().unwrap();
                }
            }
        }
        Ok(cur)
    }

    pub fn apply(&mut self, op: &Op) -> Result<(), Reject> {
        match op {
            Op::Route { m, p, id } => {
                let n = self.walk(p)?;
                if n.handlers.contains_key(m) {
                    return Err(Reject::Duplicate);
                }
                n.handlers.insert(*m, *id);
                n.registered = true;
            }
            Op::MwAt { p, id } => {
                let n = self.walk(p)?;
                n.mws.push(*id);
                n.registered = true;
            }
            Op::Mw { id } => {
                self.mws.push(*id);
                self.registered = true;
            }
            Op::Mount { p, ops } => {
                let mut sub = Node::default();
                for o in ops {
                    sub.apply(o)?;
                }
                self.mount(p, sub)?;
            }
            Op::Scope { name, ops } => {
                let mut sub = Node::default();
                for o in ops {
                    sub.apply(o)?;
                }
                self.mount(&format!("/{}", name), sub)?;
            }
        }
        Ok(())
    }

    fn mount(&mut self, p: &str, sub: Node) -> Result<(), Reject> {
        let n = self.walk(p)?;
        if n.registered || !n.children.is_empty() {
            return Err(Reject::Mount);
        }
        n.registered = sub.registered;
        n.handlers = sub.handlers;
        n.mws = sub.mws;
        n.children = sub.children;
        Ok(())
    }

    /// The chain of nodes from below the root to the selected one, with the segment texts matched by parameters.
    fn find<'a>(&'a self, s: &[&str]) -> Option<Vec<(&'a Node, Option<String>)>> {
        let (first, rest) = (s[0], &s[1..]);
        if let Some(p) = self.children.first().filter(|c| is_param(&c.seg)) {
            let me = (p, Some(first.to_string()));
            return if rest.is_empty() {
                if p.registered { Some(vec![me]) } else { None }
            } else {
                p.find(rest).map(|mut v| { v.insert(0, me); v })
            };
        }
        if let Some(c) = self.children.iter().find(|c| c.seg == first && c.seg != "*") {
            let found = if rest.is_empty() {
                if c.registered {
                    Some(vec![(c, None)])
                } else {
                    c.children.iter().find(|w| w.seg == "*" && w.registered).map(|w| vec![(c, None), (w, None)])
                }
            } else {
                c.find(rest).map(|mut v| { v.insert(0, (c, None)); v })
            };
            if found.is_some() {
                return found;
            }
        }
        self.children.iter().find(|c| c.seg == "*" && c.registered).map(|w| vec![(w, None)])
    }

    pub fn lookup(&self, method: u8, path: &str) -> Option<Hit> {
        let s = segs(path);
        let chain = if s.is_empty() { vec![] } else { self.find(&s)? };
        let mut mws = self.mws.clone();
        let mut params = BTreeMap::new();
        for (n, v) in &chain {
            mws.extend(&n.mws);
            if let Some(v) = v {
                params.entry(n.seg[1..].to_string()).or_insert(v.clone());
            }
        }
        let target = chain.last().map(|x| x.0).unwrap_or(self);
        let handler = *target.handlers.get(&method)?;
        Some(Hit { handler, mws, params: params.into_iter().collect() })
    }

    /// canonical form: children sorted
    pub fn canon(&self) -> Node {
        let mut n = self.clone();
        n.children = n.children.iter().map(|c| c.canon()).collect();
        n.children.sort_by(|a, b| a.seg.cmp(&b.seg));
        n
    }
}

/// Builds the model for a whole program. Err((index of the rejected op, why)).
pub fn run(ops: &[Op]) -> Result<Node, (usize, Reject)> {
    let mut n = Node::default();
    for (i, o) in ops.iter().enumerate() {
        n.apply(o).map_err(|e| (i, e))?;
    }
    Ok(n)
}
