//! Reads the Debug text of a notification into tagged leaves, so that contents can be
//! compared without depending on the layout, order or exact naming of private fields.
use crate::mqtt::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Leaf {
    Str(String),
    Bytes(Vec<u8>),
    Num(i64),
    Id(String),
    Item(String, Vec<Leaf>),
}

#[derive(Debug)]
enum Node {
    Leaf(Leaf),
    Ctor(String, Vec<(String, Node)>),
    List(Vec<Node>),
}

struct P<'a> {
    s: std::iter::Peekable<std::str::Chars<'a>>,
}

impl P<'_> {
    fn ws(&mut self) {
        while matches!(self.s.peek(), Some(c) if c.is_whitespace()) {
            self.s.next();
        }
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.s.peek() == Some(&c) {
            self.s.next();
            true
        } else {
            false
        }
    }
    fn node(&mut self) -> Option<Node> {
        self.ws();
        match *self.s.peek()? {
            '"' => {
                self.s.next();
                let mut o = String::new();
                loop {
                    match self.s.next()? {
                        '"' => return Some(Node::Leaf(Leaf::Str(o))),
                        '\\' => match self.s.next()? {
                            'n' => o.push('\n'),
                            't' => o.push('\t'),
                            'r' => o.push('\r'),
                            '0' => o.push('\0'),
                            'u' => {
                                self.s.next();
                                let mut h = String::new();
                                loop {
                                    match self.s.next()? {
                                        '}' => break,
                                        c => h.push(c),
                                    }
                                }
                                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
                            }
                            c => o.push(c),
                        },
                        c => o.push(c),
                    }
                }
            }
            '[' => {
                self.s.next();
                let mut v = vec![];
                while !self.eat(']') {
                    v.push(self.node()?);
                    self.eat(',');
                }
                if v.iter().all(|n| matches!(n, Node::Leaf(Leaf::Num(x)) if (0..256).contains(x))) {
                    return Some(Node::Leaf(Leaf::Bytes(v.iter().map(|n| match n { Node::Leaf(Leaf::Num(x)) => *x as u8, _ => 0 }).collect())));
                }
                Some(Node::List(v))
            }
            '(' => {
                self.s.next();
                let mut v = vec![];
                while !self.eat(')') {
                    v.push((String::new(), self.node()?));
                    self.eat(',');
                }
                Some(Node::Ctor(String::new(), v))
            }
            c if c.is_ascii_digit() || c == '-' => {
                let mut t = String::new();
                while matches!(self.s.peek(), Some(c) if c.is_ascii_alphanumeric() || *c == '-' || *c == '.') {
                    t.push(self.s.next()?);
                }
                Some(Node::Leaf(t.parse().map(Leaf::Num).unwrap_or(Leaf::Id(t))))
            }
            c if c.is_alphabetic() || c == '_' => {
                let mut t = String::new();
                while matches!(self.s.peek(), Some(c) if c.is_alphanumeric() || *c == '_' || *c == ':') {
                    if self.s.peek() == Some(&':') {
                        // field separator or path
                        let mut l = self.s.clone();
                        l.next();
                        if l.peek() != Some(&':') {
                            break;
                        }
                        self.s.next();
                        self.s.next();
                        t.clear();
                        continue;
                    }
                    t.push(self.s.next()?);
                }
                self.ws();
                match self.s.peek() {
                    Some('(') => match self.node()? {
                        Node::Ctor(_, v) => Some(Node::Ctor(t, v)),
                        _ => None,
                    },
                    Some('{') => {
                        self.s.next();
                        let mut v = vec![];
                        while !self.eat('}') {
                            self.ws();
                            let mut f = String::new();
                            while matches!(self.s.peek(), Some(c) if c.is_alphanumeric() || *c == '_') {
                                f.push(self.s.next()?);
                            }
                            if !self.eat(':') {
                                return None;
                            }
                            v.push((f.to_lowercase(), self.node()?));
                            self.eat(',');
                        }
                        Some(Node::Ctor(t, v))
                    }
                    _ => Some(Node::Leaf(Leaf::Id(t))),
                }
            }
            _ => None,
        }
    }
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| *c != '_').collect::<String>().to_lowercase()
}

const PROPS: &[&str] = &["payloadformatid", "messageexpiryinterval", "responsetopic", "correlationdata", "userproperty", "reasonstring"];

#[derive(Default, Debug)]
pub struct Leaves {
    items: Vec<Leaf>,
    rest: Vec<(String, Leaf)>,
}

fn flat(n: &Node, tag: &str, out: &mut Leaves) {
    match n {
        Node::Leaf(l) => out.rest.push((tag.to_owned(), l.clone())),
        Node::List(v) => v.iter().for_each(|n| flat(n, tag, out)),
        Node::Ctor(c, v) => {
            if PROPS.contains(&norm(c).as_str()) {
                let mut sub = Leaves::default();
                v.iter().for_each(|(f, n)| flat(n, f, &mut sub));
                out.items.push(Leaf::Item(norm(c), sub.rest.into_iter().map(|x| x.1).collect()));
                return;
            }
            for (f, n) in v {
                flat(n, if f.is_empty() { tag } else { f }, out)
            }
        }
    }
}

pub fn leaves(text: &str) -> Option<Leaves> {
    let mut p = P { s: text.chars().peekable() };
    let n = p.node()?;
    p.ws();
    if p.s.next().is_some() {
        return None;
    }
    let mut l = Leaves::default();
    flat(&n, "", &mut l);
    Some(l)
}

fn item(p: &RProp) -> Option<Leaf> {
    let s = |x: &str| Leaf::Str(x.to_owned());
    Some(match p {
        RProp::Pfi(x) => Leaf::Item("payloadformatid".into(), vec![Leaf::Num(*x as i64)]),
        RProp::Expiry(x) => Leaf::Item("messageexpiryinterval".into(), vec![Leaf::Num(*x as i64)]),
        RProp::Resp(x) => Leaf::Item("responsetopic".into(), vec![s(x)]),
        RProp::Corr(x) => Leaf::Item("correlationdata".into(), vec![Leaf::Bytes(x.clone())]),
        RProp::User(a, b) => Leaf::Item("userproperty".into(), vec![s(a), s(b)]),
        RProp::Reason(a) => Leaf::Item("reasonstring".into(), vec![s(a)]),
        RProp::Other(_) => return None,
    })
}

fn name(t: &[(u8, &'static str)], r: u8) -> Leaf {
    Leaf::Id(t.iter().find(|x| x.0 == r).map(|x| x.1).unwrap_or("?").to_owned())
}

/// Does the printed notification show exactly the content of `p`?
pub fn shows(text: &str, p: &InPkt) -> Result<(), String> {
    let Some(l) = leaves(text) else { return Err(format!("unreadable notification text {text}")) };
    let mut want: Vec<(&str, Leaf)> = vec![];
    let b = |x: bool| Leaf::Id(x.to_string());
    let props: &[RProp] = match p {
        InPkt::Connack { sp, reason, props } => {
            want.push(("session", b(*sp)));
            want.push(("reason", name(CONNACK_REASONS, *reason)));
            props
        }
        InPkt::Suback { pid, reason, props } | InPkt::Unsuback { pid, reason, props } => {
            want.push(("id", Leaf::Num(*pid as i64)));
            let t = if matches!(p, InPkt::Suback { .. }) { SUBACK_REASONS } else { UNSUBACK_REASONS };
            want.push(("reason", name(t, *reason)));
            props
        }
        InPkt::Publish { dup, qos, retain, topic, pid, props, payload } => {
            want.push(("dup", b(*dup)));
            want.push(("retain", b(*retain)));
            want.push(("qos", Leaf::Id(["AtMostOnce", "AtLeastOnce", "ExactlyOnce"][*qos as usize].into())));
            want.push(("topic", Leaf::Str(topic.clone())));
            want.push(("id", pid.map(|p| Leaf::Num(p as i64)).unwrap_or(Leaf::Id("None".into()))));
            let text = props.contains(&RProp::Pfi(1));
            want.push(("payload", if text { Leaf::Str(String::from_utf8_lossy(payload).into_owned()) } else { Leaf::Bytes(payload.clone()) }));
            props
        }
        _ => return Err("no notification is due for this packet".into()),
    };
    let items: Vec<Leaf> = props.iter().filter_map(item).collect();
    if items != l.items {
        return Err(format!("properties shown {:?}, received {:?}", l.items, items));
    }
    let eq = |a: &Leaf, b: &Leaf| match (a, b) {
        (Leaf::Id(a), Leaf::Id(b)) => norm(a) == norm(b),
        _ => a == b,
    };
    let mut rest = l.rest;
    for (kw, leaf) in want {
        let by_tag = rest.iter().position(|(t, _)| t.contains(kw));
        let at = match by_tag {
            Some(i) if eq(&rest[i].1, &leaf) => Some(i),
            // "id" is too short a keyword to insist on
            Some(_) if kw != "id" => None,
            _ => rest.iter().position(|(_, x)| eq(x, &leaf)),
        };
        match at {
            Some(i) => {
                rest.remove(i);
            }
            None => return Err(format!("{kw} {leaf:?} not shown in {text}")),
        }
    }
    let extra: Vec<_> = rest.iter().filter(|(_, l)| !matches!(l, Leaf::Id(_)) && *l != Leaf::Bytes(vec![])).collect();
    if !extra.is_empty() && !props.iter().any(|p| matches!(p, RProp::Other(_))) {
        return Err(format!("shows {extra:?}, which was not received, in {text}"));
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn reads() {
        let t = "Publish { topic: \"a/\\\"b\", payload: Bytes([1, 2]), properties: [PayloadFormatId(0), UserProperty(\"k\", \"v\")], flags: PublishFlags { dup: false, qos: AtLeastOnce, retain: true }, pktid: Some(7) }";
        let mut p = InPkt::Publish { dup: false, qos: 1, retain: true, topic: "a/\"b".into(), pid: Some(7), props: vec![RProp::Pfi(0), RProp::User("k".into(), "v".into())], payload: vec![1, 2] };
        shows(t, &p).unwrap();
        if let InPkt::Publish { retain, .. } = &mut p {
            *retain = false;
        }
        assert!(shows(t, &p).is_err());
    }
}
