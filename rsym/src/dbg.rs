//! Names of the source functions behind executed IR functions, from line-table debug info.
use crate::ll::Module;
use std::collections::{BTreeSet, HashMap};

fn num(s: &str, key: &str) -> Option<u32> {
    let i = s.find(key)? + key.len();
    let r: String = s[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}
fn text<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let i = s.find(key)? + key.len();
    s[i..].find('"').map(|e| &s[i..i + e])
}

pub fn functions(m: &Module, names: &[String]) -> Vec<String> {
    let t = String::from_utf8_lossy(&m.text);
    let mut md: HashMap<u32, &str> = HashMap::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix('!') {
            let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(n) = d.parse() {
                md.insert(n, l);
            }
        }
    }
    let mut out = BTreeSet::new();
    let mut seen = BTreeSet::new();
    let mut todo = vec![];
    for n in names {
        let Some(f) = m.fns.get(n) else { continue };
        let body = String::from_utf8_lossy(&m.text[f.start..f.end]).into_owned();
        let mut rest = &body[..];
        while let Some(i) = rest.find("!dbg !") {
            rest = &rest[i + 6..];
            let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
            if let Ok(x) = d.parse::<u32>() {
                todo.push(x);
            }
        }
    }
    while let Some(k) = todo.pop() {
        if !seen.insert(k) {
            continue;
        }
        let Some(l) = md.get(&k) else { continue };
        if l.contains("!DILocation(") || l.contains("!DILexicalBlock") {
            todo.extend(num(l, "scope: !"));
            todo.extend(num(l, "inlinedAt: !"));
        } else if l.contains("!DISubprogram(") {
            let name = text(l, "name: \"").unwrap_or("?");
            let file = num(l, "file: !").and_then(|f| md.get(&f)).copied().unwrap_or("");
            let fname = text(file, "filename: \"").unwrap_or("");
            let dir = text(file, "directory: \"").unwrap_or("");
            let p = if fname.starts_with('/') { fname.to_string() } else { format!("{dir}/{fname}") };
            if let Some(r) = p.strip_prefix("/repo/") {
                out.insert(format!("{r} {name}"));
            }
        }
    }
    out.into_iter().collect()
}
