use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub key: String,
    pub rename: Option<String>,
    pub params: Option<Vec<String>>,
    pub ret: String,
    pub attrs: Vec<String>,
    pub generics: Option<String>,
    pub contract: String,
    pub trusted: bool,
    pub eq: bool,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub beforeloop: BTreeMap<usize, String>,
    pub afterloop: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, (String, String)>,
    pub closure_entry: BTreeMap<usize, String>,
    pub closure_after: BTreeMap<usize, String>,
    pub hide: Vec<String>,
    pub entry: String,
    pub ghost: String,
    pub exit: String,
    pub before_call: Vec<(String, usize, String)>,
    pub after_call: Vec<(String, usize, String)>,
    pub locals: Vec<String>,
}

#[derive(Debug, Clone)]
pub enum Sect {
    Raw(String),
    Type(String, String),
    Fn(String),
    Impl(String, String),
}

#[derive(Debug, Clone, Default)]
pub struct ModSpec {
    pub name: String,
    pub file: String,
    pub head: String,
    pub sects: Vec<Sect>,
    pub fns: BTreeMap<String, FnSpec>,
}

pub fn parse(text: &str) -> Result<ModSpec, String> {
    let mut m = ModSpec::default();
    let mut cur: Option<(Vec<String>, String)> = None;
    let mut all: Vec<(Vec<String>, String)> = vec![];
    for (ln, l) in text.lines().enumerate() {
        if l.starts_with('%') {
            if let Some(c) = cur.take() { all.push(c) }
            if l.starts_with("%%") { continue }
            let words = split_words(&l[1..]).map_err(|e| format!("line {}: {}", ln + 1, e))?;
            cur = Some((words, String::new()));
        } else if let Some(ref mut c) = cur {
            c.1.push_str(l);
            c.1.push('\n');
        }
    }
    if let Some(c) = cur.take() { all.push(c) }
    for (w, body) in all {
        let d = w[0].as_str();
        let arg = |i: usize| -> Result<String, String> { w.get(i).cloned().ok_or(format!("%{}: missing argument {}", d, i)) };
        let num = |i: usize| -> Result<usize, String> { arg(i)?.parse::<usize>().map_err(|e| e.to_string()) };
        match d {
            "module" => { m.name = arg(1)?; m.file = w.get(2).cloned().unwrap_or_default(); }
            "head" => m.head.push_str(&body),
            "raw" => m.sects.push(Sect::Raw(body)),
            "type" => m.sects.push(Sect::Type(arg(1)?, body)),
            "impl" => m.sects.push(Sect::Impl(arg(1)?, body)),
            "fn" => {
                let key = arg(1)?;
                let mut f = FnSpec { key: key.clone(), ret: "res".into(), contract: body, ..Default::default() };
                let mut i = 2;
                while i < w.len() {
                    match w[i].as_str() {
                        "as" => { f.rename = Some(arg(i + 1)?); i += 2 }
                        "params" => { f.params = Some(arg(i + 1)?.split(',').map(|s| s.trim().to_string()).collect()); i += 2 }
                        "ret" => { f.ret = arg(i + 1)?; i += 2 }
                        "attr" => { f.attrs.push(arg(i + 1)?); i += 2 }
                        "generics" => { f.generics = Some(arg(i + 1)?); i += 2 }
                        "trusted" => { f.trusted = true; i += 1 }
                        "eq" => { f.eq = true; i += 1 }
                        x => return Err(format!("%fn {}: unknown option {}", key, x)),
                    }
                }
                m.sects.push(Sect::Fn(key.clone()));
                m.fns.insert(key, f);
            }
            "loop" | "loopstart" | "hide" | "loopend" | "beforeloop" | "afterloop" | "ghost" | "entry" | "exit" | "closure" | "closure_entry" | "closure_after" | "before" | "after" => {
                let key = arg(1)?;
                let f = m.fns.get_mut(&key).ok_or(format!("%{} {}: no such %fn above", d, key))?;
                match d {
                    "loop" => { f.loops.insert(num(2)?, body); }
                    "loopstart" => { f.loopstart.insert(num(2)?, body); }
                    "loopend" => { f.loopend.insert(num(2)?, body); }
                    "beforeloop" => { f.beforeloop.insert(num(2)?, body); }
                    "afterloop" => { f.afterloop.insert(num(2)?, body); }
                    "hide" => f.hide.extend(arg(2)?.split(',').map(|s| s.trim().to_string())),
                    "ghost" => f.ghost.push_str(&body),
                    "entry" => f.entry.push_str(&body),
                    "exit" => f.exit.push_str(&body),
                    "closure" => { f.closures.insert(num(2)?, (arg(3)?, body)); }
                    "closure_after" => { f.closure_after.insert(num(2)?, body); }
                    "closure_entry" => { f.closure_entry.insert(num(2)?, body); }
                    "before" => f.before_call.push((arg(2)?, num(3)?, body)),
                    "after" => f.after_call.push((arg(2)?, num(3)?, body)),
                    _ => unreachable!(),
                }
            }
            x => return Err(format!("unknown directive %{}", x)),
        }
    }
    if m.name.is_empty() { return Err("no %module".into()) }
    Ok(m)
}

/// words separated by blanks; `"..."` and `{...}` group
fn split_words(s: &str) -> Result<Vec<String>, String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut q = false;
    let mut has = false;
    for c in s.chars() {
        match c {
            '"' => { q = !q; has = true }
            c if c.is_whitespace() && !q => { if has || !cur.is_empty() { out.push(std::mem::take(&mut cur)); has = false } }
            c => cur.push(c),
        }
    }
    if q { return Err("unbalanced quote".into()) }
    if has || !cur.is_empty() { out.push(cur) }
    if out.is_empty() { return Err("empty directive".into()) }
    Ok(out)
}
