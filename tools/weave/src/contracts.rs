//! Parser for the contract files (/verif/contracts/*.vc).
//!
//! A contract file is a list of directives. Each directive is a line starting with `%`; the lines
//! up to the next `%` line are its text (copied verbatim into the woven crate).
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Debug, Clone)]
pub struct LoopSpec {
    pub label: Option<String>,
    pub inv: String,
    pub start: String,
    pub end: String,
}

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub key: String,
    pub params: Vec<String>,
    pub ret: Option<String>,
    pub attr: String,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub start: String,
    pub tail: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    /// inserted before the statement that contains the first match of the snippet
    pub at: Vec<(String, String)>,
    /// inserted after the statement that contains the first match of the snippet
    pub after: Vec<(String, String)>,
    /// inserted behind `{ ` of the n-th closure-like desugaring etc.
    pub external: bool,
    /// trait method whose body is checked in an inherent impl of its own
    pub split: bool,
    /// its `assert!`s are run-time checks that its contract builds on, not obligations
    pub checked: bool,
    pub loop_count: Option<usize>,
    pub locals: Vec<(String, usize)>,
    pub prop: Vec<String>,
    /// where the contract is written
    pub origin: String,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnSpec>,
    /// text appended to a module
    pub spec: BTreeMap<String, String>,
    /// text inserted at the start of a trait body
    pub traits: BTreeMap<String, String>,
    /// text inserted at the start of an impl body, keyed by `<T as Trait>` or `T`
    pub impls: BTreeMap<String, String>,
    pub prelude: String,
    pub drop: Vec<String>,
    pub external: Vec<String>,
    /// equality of derived PartialEq: type key -> (generics, expression over self and other)
    pub derived: BTreeMap<String, BTreeMap<String, String>>,
    /// the shape of a type that is read and written by derived serde code: type -> text without white space
    pub serde: BTreeMap<String, String>,
    /// module -> name -> path: the imports of the source the contracts were written for
    pub imports: BTreeMap<String, BTreeMap<String, String>>,
    /// functions defined by specification text
    pub spec_names: BTreeSet<String>,
}

pub fn parse_into(c: &mut Contracts, text: &str, origin: &str) -> Result<(), String> {
    let mut cur: Option<FnSpec> = None;
    // (setter kind)
    enum Sink {
        None,
        Req,
        Ens,
        Dec,
        Start,
        Tail,
        Attr,
        Loop(usize),
        LStart(usize),
        LEnd(usize),
        At(usize),
        After(usize),
        Spec(String),
        Trait(String),
        Impl(String),
        Prelude,
        Derived(String, String),
        Serde(String),
    }
    let mut sink = Sink::None;
    for (no, line) in text.lines().enumerate() {
        if let Some(rest) = line.strip_prefix('%') {
            let rest = rest.trim();
            if rest.starts_with('%') || rest.is_empty() {
                sink = Sink::None; // comment line
                continue;
            }
            let (word, arg) = match rest.find(char::is_whitespace) {
                Some(i) => (&rest[..i], rest[i..].trim()),
                None => (rest, ""),
            };
            let err = |m: &str| format!("{}:{}: {}", origin, no + 1, m);
            match word {
                "fn" => {
                    if let Some(f) = cur.take() {
                        c.fns.insert(f.key.clone(), f);
                    }
                    let open = arg.rfind('(').ok_or_else(|| err("fn needs (params)"))?;
                    let close = arg.rfind(')').ok_or_else(|| err("fn needs (params)"))?;
                    let key = arg[..open].trim().to_string();
                    let params = arg[open + 1..close]
                        .split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect();
                    let ret = arg[close + 1..].trim().strip_prefix("->").map(|s| s.trim().to_string());
                    if c.fns.contains_key(&key) {
                        return Err(err(&format!("duplicate contract for {}", key)));
                    }
                    cur = Some(FnSpec { key, params, ret, origin: format!("{}:{}", origin, no + 1), ..Default::default() });
                    sink = Sink::None;
                }
                "requires" => sink = Sink::Req,
                "ensures" => sink = Sink::Ens,
                "decreases" => sink = Sink::Dec,
                "start" => sink = Sink::Start,
                "tail" => sink = Sink::Tail,
                "attr" => sink = Sink::Attr,
                "loops" => cur.as_mut().ok_or_else(|| err("no fn"))?.loop_count = arg.parse().ok(),
                "local" => {
                    let mut it = arg.split_whitespace();
                    let n = it.next().ok_or_else(|| err("local name ordinal"))?.to_string();
                    let o = it.next().and_then(|x| x.parse().ok()).ok_or_else(|| err("local name ordinal"))?;
                    cur.as_mut().ok_or_else(|| err("no fn"))?.locals.push((n, o));
                    sink = Sink::None;
                }
                "loop" => {
                    let mut it = arg.split_whitespace();
                    let i: usize = it.next().and_then(|x| x.parse().ok()).ok_or_else(|| err("loop ordinal"))?;
                    let l = cur.as_mut().ok_or_else(|| err("no fn"))?.loops.entry(i).or_default();
                    l.label = it.next().map(|s| s.to_string());
                    sink = Sink::Loop(i);
                }
                "lstart" => sink = Sink::LStart(arg.parse().map_err(|_| err("ordinal"))?),
                "lend" => sink = Sink::LEnd(arg.parse().map_err(|_| err("ordinal"))?),
                "at" | "after" => {
                    let f = cur.as_mut().ok_or_else(|| err("no fn"))?;
                    if word == "at" {
                        f.at.push((arg.to_string(), String::new()));
                        sink = Sink::At(f.at.len() - 1);
                    } else {
                        f.after.push((arg.to_string(), String::new()));
                        sink = Sink::After(f.after.len() - 1);
                    }
                }
                "checked" => cur.as_mut().ok_or_else(|| err("no fn"))?.checked = true,
                "split" => cur.as_mut().ok_or_else(|| err("no fn"))?.split = true,
                "trusted" => cur.as_mut().ok_or_else(|| err("no fn"))?.external = true,
                "prop" => {
                    let f = cur.as_mut().ok_or_else(|| err("no fn"))?;
                    f.prop.extend(arg.split_whitespace().map(|s| s.to_string()));
                    sink = Sink::None;
                }
                "spec" | "trait" | "impl" | "prelude" | "drop" | "external" | "derived" | "serde" | "end" => {
                    if let Some(f) = cur.take() {
                        c.fns.insert(f.key.clone(), f);
                    }
                    match word {
                        "spec" => sink = Sink::Spec(arg.to_string()),
                        "trait" => sink = Sink::Trait(arg.to_string()),
                        "impl" => sink = Sink::Impl(arg.to_string()),
                        "prelude" => sink = Sink::Prelude,
                        "drop" => {
                            c.drop.push(arg.to_string());
                            sink = Sink::None
                        }
                        "external" => {
                            c.external.push(arg.to_string());
                            sink = Sink::None
                        }
                        "serde" => sink = Sink::Serde(arg.trim().to_string()),
                        "derived" => {
                            let mut it = arg.splitn(2, char::is_whitespace);
                            let tr = it.next().unwrap_or("").to_string();
                            let ty = it.next().ok_or_else(|| err("derived Trait Type"))?.trim().to_string();
                            sink = Sink::Derived(ty, tr)
                        }
                        _ => sink = Sink::None,
                    }
                }
                _ => return Err(err(&format!("unknown directive %{}", word))),
            }
            continue;
        }
        let l = format!("{}\n", line);
        match &sink {
            Sink::None => {
                if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                    return Err(format!("{}:{}: stray text: {}", origin, no + 1, line));
                }
            }
            Sink::Spec(m) => c.spec.entry(m.clone()).or_default().push_str(&l),
            Sink::Trait(m) => c.traits.entry(m.clone()).or_default().push_str(&l),
            Sink::Impl(m) => c.impls.entry(m.clone()).or_default().push_str(&l),
            Sink::Prelude => c.prelude.push_str(&l),
            Sink::Serde(ty) => {
                let t: String = l.split_whitespace().collect();
                c.serde.entry(ty.clone()).or_default().push_str(&t)
            }
            Sink::Derived(ty, tr) => c.derived.entry(ty.clone()).or_default().entry(tr.clone()).or_default().push_str(&l),
            s => {
                let f = cur.as_mut().ok_or_else(|| format!("{}:{}: no fn", origin, no + 1))?;
                match s {
                    Sink::Req => f.requires.push_str(&l),
                    Sink::Ens => f.ensures.push_str(&l),
                    Sink::Dec => f.decreases.push_str(&l),
                    Sink::Start => f.start.push_str(&l),
                    Sink::Tail => f.tail.push_str(&l),
                    Sink::Attr => f.attr.push_str(&l),
                    Sink::Loop(i) => f.loops.entry(*i).or_default().inv.push_str(&l),
                    Sink::LStart(i) => f.loops.entry(*i).or_default().start.push_str(&l),
                    Sink::LEnd(i) => f.loops.entry(*i).or_default().end.push_str(&l),
                    Sink::At(i) => f.at[*i].1.push_str(&l),
                    Sink::After(i) => f.after[*i].1.push_str(&l),
                    _ => unreachable!(),
                }
            }
        }
    }
    if let Some(f) = cur.take() {
        c.fns.insert(f.key.clone(), f);
    }
    Ok(())
}
