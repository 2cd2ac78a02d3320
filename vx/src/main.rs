//! Mechanical extraction of functions of /repo into a Verus file.
//! usage: vx UNIT.rs --repo DIR --out GEN.rs --map MAP.json [--reach]
//! The unit file is Verus text with blocks `/*@fn ... @*/` that are replaced by functions taken
//! from the repository, with the contracts of the block spliced in.
mod passes;

use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::HashMap;
use std::fs;

pub struct Dir {
    pub file: String,
    pub item: String,
    pub sections: Vec<(String, String, String)>, // name, argument, text
}
impl Dir {
    pub fn get(&self, name: &str) -> Option<&str> {
        self.sections.iter().find(|s| s.0 == name).map(|s| s.2.as_str())
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = (&'a str, &'a str)> + 'a {
        self.sections.iter().filter(move |s| s.0 == name).map(|s| (s.1.as_str(), s.2.as_str()))
    }
}

thread_local! {
    /// while a function is extracted, giving up concerns that function only
    static INSIDE: std::cell::Cell<bool> = Default::default();
}
struct GiveUp(String);
pub fn die(msg: impl std::fmt::Display) -> ! {
    if INSIDE.with(|i| i.get()) {
        std::panic::panic_any(GiveUp(msg.to_string()));
    }
    eprintln!("EXTRACT: {msg}");
    std::process::exit(2);
}
fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    INSIDE.with(|i| i.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    INSIDE.with(|i| i.set(false));
    r.map_err(|e| match e.downcast::<GiveUp>() {
        Ok(g) => g.0,
        Err(e) => format!("the extractor failed: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    })
}

const SECTIONS: &[&str] = &["sig", "spec", "loop", "subst", "ghost", "pre", "post", "attr", "keep", "rename", "mode", "expand", "after", "before", "begin", "end", "exit", "at", "noreach"];

/// where the block that is open at the start of the text is closed
fn closing_brace(text: &str) -> Option<usize> {
    let b = text.as_bytes();
    let (mut i, mut depth) = (0, 1);
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
            }
            b'\'' if b.get(i + 2) == Some(&b'\'') => i += 2,
            b'{' => depth += 1,
            b'}' => {
                depth -= 1;
                if depth == 0 {
                    return Some(i);
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

fn parse_dir(text: &str) -> Dir {
    let mut lines = text.lines();
    let head = lines.next().unwrap_or("");
    let mut file = String::new();
    let mut item = String::new();
    for w in head.split_whitespace() {
        if let Some(v) = w.strip_prefix("file=") {
            file = v.into();
        } else if let Some(v) = w.strip_prefix("item=") {
            item = v.replace('~', " ");
        }
    }
    let mut sections: Vec<(String, String, String)> = vec![];
    for l in lines {
        let starts = (|| {
            if l.starts_with(' ') || l.starts_with('\t') {
                return None;
            }
            // the first colon that is not part of a path
            let b = l.as_bytes();
            let at = (0..b.len()).find(|&i| b[i] == b':' && b.get(i + 1) != Some(&b':') && (i == 0 || b[i - 1] != b':'))?;
            let (h, rest) = (&l[..at], &l[at + 1..]);
            let mut p = h.splitn(2, ' ');
            let n = p.next()?;
            if !SECTIONS.contains(&n) {
                return None;
            }
            Some((n.to_string(), p.next().unwrap_or("").to_string(), rest.to_string()))
        })();
        match starts {
            Some(s) => sections.push(s),
            None => {
                if let Some(s) = sections.last_mut() {
                    s.2.push('\n');
                    s.2.push_str(l);
                }
            }
        }
    }
    for s in &mut sections {
        s.2 = s.2.trim().to_string();
    }
    Dir { file, item, sections }
}

/// Light formatting of a token string so that messages carry useful lines.
pub fn pretty(ts: &str) -> String {
    let mut out = String::new();
    let mut depth = 0usize;
    let mut paren = 0i32;
    let chars: Vec<char> = ts.chars().collect();
    let mut i = 0;
    let nl = |out: &mut String, d: usize| {
        while out.ends_with(' ') {
            out.pop();
        }
        out.push('\n');
        for _ in 0..d {
            out.push_str("    ");
        }
    };
    while i < chars.len() {
        let c = chars[i];
        match c {
            '"' => {
                out.push(c);
                i += 1;
                while i < chars.len() && chars[i] != '"' {
                    if chars[i] == '\\' {
                        out.push(chars[i]);
                        i += 1;
                    }
                    out.push(chars[i]);
                    i += 1;
                }
                out.push('"');
            }
            '(' | '[' => {
                paren += 1;
                out.push(c);
            }
            ')' | ']' => {
                paren -= 1;
                out.push(c);
            }
            '{' => {
                out.push(c);
                depth += 1;
                nl(&mut out, depth);
            }
            '}' => {
                depth = depth.saturating_sub(1);
                nl(&mut out, depth);
                out.push(c);
                if !matches!(chars.get(i + 1..i + 3), Some([' ', ';' | ',' | ')' | '.' | '?'])) && !ts[ts.char_indices().nth(i + 1).map(|x| x.0).unwrap_or(ts.len())..].trim_start().starts_with("else") {
                    nl(&mut out, depth);
                }
            }
            ';' if paren == 0 => {
                out.push(c);
                nl(&mut out, depth);
            }
            '\n' => out.push(' '),
            _ => out.push(c),
        }
        i += 1;
    }
    out.lines().filter(|l| !l.trim().is_empty()).map(|l| l.trim_end().to_string()).collect::<Vec<_>>().join("\n")
}

/// tokens as text pieces and whether a space may follow
fn flat(ts: TokenStream, out: &mut Vec<(String, bool)>) {
    use proc_macro2::{Delimiter, Spacing, TokenTree::*};
    for t in ts {
        match t {
            Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    out.push((o.into(), true));
                }
                flat(g.stream(), out);
                if !c.is_empty() {
                    out.push((c.into(), true));
                }
            }
            Punct(p) => out.push((p.as_char().to_string(), p.spacing() == Spacing::Alone)),
            Ident(i) => out.push((i.to_string(), true)),
            Literal(l) => out.push((l.to_string(), true)),
        }
    }
}
fn flatten(s: &str) -> Vec<(String, bool)> {
    let t = s.parse::<TokenStream>().unwrap_or_else(|e| die(format!("cannot tokenise `{s}`: {e}")));
    let mut v = vec![];
    flat(t, &mut v);
    v
}
fn unflatten(v: &[(String, bool)]) -> String {
    let mut o = String::new();
    for (s, sp) in v {
        o.push_str(s);
        if *sp {
            o.push(' ');
        }
    }
    o.trim_end().to_string()
}
/// replace a token sequence, whatever the spacing; `None` when it does not occur
pub fn token_replace(body: &str, from: &str, to: &str) -> Option<String> {
    let b = flatten(body);
    let f = flatten(from);
    let t = flatten(to);
    let mut out: Vec<(String, bool)> = vec![];
    let mut hit = false;
    let mut i = 0;
    while i < b.len() {
        if i + f.len() <= b.len() && !f.is_empty() && (0..f.len()).all(|k| b[i + k].0 == f[k].0) {
            if let Some(l) = out.last_mut() {
                if l.0 != "'" {
                    l.1 = true;
                }
            }
            out.extend(t.iter().cloned());
            if let Some(l) = out.last_mut() {
                l.1 = true;
            }
            i += f.len();
            hit = true;
        } else {
            out.push(b[i].clone());
            i += 1;
        }
    }
    hit.then(|| unflatten(&out))
}

fn word_replace(s: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let is = |c: char| c.is_alphanumeric() || c == '_';
    let b: Vec<char> = s.chars().collect();
    let f: Vec<char> = from.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(&f) && (i == 0 || !is(b[i - 1])) && b.get(i + f.len()).map_or(true, |c| !is(*c)) && !(i > 0 && b[i - 1] == '.') {
            out.push_str(to);
            i += f.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn load<'a>(files: &'a mut HashMap<String, syn::File>, name: &str, repo: &str) -> &'a syn::File {
    files.entry(name.to_string()).or_insert_with(|| {
        let derived = || {
            let args: Vec<String> = std::env::args().collect();
            let i = args.iter().position(|a| a == "--derive").unwrap_or_else(|| die("no expansion of the derive macro"));
            args[i + 1].clone()
        };
        let p = if name == "@derive" { derived() } else { format!("{repo}/{name}") };
        let src = fs::read_to_string(&p).unwrap_or_else(|e| die(format!("{p}: {e}")));
        let mut f = syn::parse_file(&src).unwrap_or_else(|e| die(format!("{p}: {e}")));
        passes::expand_items(&mut f);
        f
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let repo = get("--repo").unwrap_or("/repo".into());
    let unit = fs::read_to_string(&args[1]).unwrap_or_else(|e| die(e));
    // shared preludes
    let mut text = String::new();
    for l in unit.lines() {
        if let Some(p) = l.strip_prefix("//@include ") {
            // words after the name replace $WORD$
            let mut w = p.split_whitespace();
            let p = std::path::Path::new(&args[1]).parent().unwrap().join(w.next().unwrap_or(""));
            let mut t = fs::read_to_string(&p).unwrap_or_else(|e| die(format!("{p:?}: {e}")));
            for kv in w {
                let (k, v) = kv.split_once('=').unwrap_or_else(|| die("include: NAME=value"));
                t = t.replace(&format!("${k}$"), v);
            }
            text.push_str(&t);
        } else {
            text.push_str(l);
        }
        text.push('\n');
    }
    let mut files: HashMap<String, syn::File> = HashMap::new();
    let mut out = String::new();
    let mut map = vec![];
    let mut rest = text.as_str();
    let reach = args.iter().any(|a| a == "--reach");
    let known = passes::declared_fns(&text);
    passes::note_results(&text);
    passes::note_effects(&text);
    let opaque: Vec<String> = args.windows(2).filter(|w| w[0] == "--opaque").map(|w| w[1].clone()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut n = 0;
    loop {
        let find = |k: &str| rest.find(k);
        let (pf, pt) = (find("/*@fn"), find("/*@type"));
        if let Some(p) = pt {
            if pf.map_or(true, |f| p < f) {
                // a type or a constant, copied
                out.push_str(&rest[..p]);
                let e = rest[p..].find("@*/").unwrap_or_else(|| die("unterminated block")) + p;
                let dir = parse_dir(rest[p + 7..e].trim());
                rest = &rest[e + 3..];
                let file = load(&mut files, &dir.file, &repo);
                let body = passes::extract_type(file, &dir);
                out.push_str(&format!("// copied from {} {}\n{}\n{body}\n", dir.file, dir.item, dir.get("attr").unwrap_or("")));
                continue;
            }
        }
        let Some(p) = pf else { break };
        out.push_str(&rest[..p]);
        let e = rest[p..].find("@*/").unwrap_or_else(|| die("unterminated block")) + p;
        let dir = parse_dir(rest[p + 5..e].trim());
        rest = &rest[e + 3..];
        let file = load(&mut files, &dir.file, &repo);
        let made = if opaque.contains(&dir.item) { Err("not within the verifier's reach".to_string()) } else { attempt(|| make(file, &dir, &known)) };
        let Made { header, spec, body, attr, ex, loops_sig } = match made {
            Ok(m) => m,
            Err(why) => {
                // the contract stays, for the callers; nothing is said about the body
                eprintln!("OPAQUE: {}: {why}", dir.item);
                let header = match dir.get("sig") {
                    Some(h) => h.to_string(),
                    None => attempt(|| passes::signature(file, &dir)).unwrap_or_else(|e| die(e)),
                };
                let spec = dir.get("spec").unwrap_or("").to_string();
                let spec = spec.find("decreases").map_or(spec.clone(), |d| spec[..d].to_string());
                let start = out.lines().count() + 1;
                out.push_str(&format!("// assumed: {} {}\n#[verifier::external_body]\n{header}\n    {spec}\n{{ unimplemented!() }}\n", dir.file, dir.item));
                n += 1;
                map.push(serde_json::json!({"item": dir.item, "file": dir.file, "line": 0, "gen_start": start, "gen_end": out.lines().count(), "loops": "",
                    "dropped": [], "inlined": [], "substitutions": [], "opaque": why}));
                continue;
            }
        };
        let attr = attr.as_str();
        let start = out.lines().count() + 1;
        out.push_str(&format!("// extracted from {} {} (line {})\n{attr}\n{header}\n    {spec}\n{body}\n", dir.file, dir.item, ex.line));
        let endl = out.lines().count();
        n += 1;
        map.push(serde_json::json!({"item": dir.item, "file": dir.file, "line": ex.line, "gen_start": start, "gen_end": endl, "loops": loops_sig,
            "dropped": ex.dropped, "inlined": ex.inlined, "substitutions": dir.all("subst").map(|s| s.1.to_string()).collect::<Vec<_>>()}));
        if reach && dir.get("noreach").is_none() {
            // a copy that claims to be unreachable: must be refuted, or the contract is vacuous
            let h2 = header.replacen(&format!("fn {}", ex.name_in(&header)), &format!("fn {}__reach", ex.name_in(&header)), 1);
            // nothing but `false` is claimed, so that the answer is quick
            let sp = match spec.find("ensures") {
                Some(p) => {
                    let tail = spec[p..].find("decreases").map(|d| spec[p + d..].to_string()).unwrap_or_default();
                    format!("{} ensures false, {tail}", &spec[..p])
                }
                None => format!("{spec} ensures false,"),
            };
            let s2 = out.lines().count() + 1;
            out.push_str(&format!("{attr}\n{h2}\n    {sp}\n{body}\n"));
            map.push(serde_json::json!({"item": format!("{}__reach", dir.item), "gen_start": s2, "gen_end": out.lines().count()}));
        }
    }
    out.push_str(rest);
    if n == 0 {
        die("nothing extracted");
    }
    fs::write(get("--out").unwrap(), out).unwrap();
    if let Some(m) = get("--map") {
        fs::write(m, serde_json::to_string_pretty(&map).unwrap()).unwrap();
    }
}

struct Made {
    header: String,
    spec: String,
    body: String,
    attr: String,
    ex: Extracted,
    loops_sig: String,
}
/// the function with its contract
fn make(file: &syn::File, dir: &Dir, known: &std::collections::HashSet<String>) -> Made {
    let ex = passes::extract(file, dir, known);
    let mut spec = dir.get("spec").unwrap_or("").to_string();
    let mut renames: Vec<(String, String)> = vec![];
    // parameters renamed in the repository are renamed in the contract
    let sig = dir.get("sig").map(|s| s.to_string());
    let header = match &sig {
        Some(s) => {
            let f: syn::Signature = syn::parse_str(&strip_verus(s)).unwrap_or_else(|e| die(format!("sig of {}: {e}", dir.item)));
            let mine = passes::param_names(&f);
            let theirs = &ex.params;
            if !ex.free_sig {
                let real: Vec<&String> = mine.iter().filter(|m| !m.starts_with("tr")).collect();
                if real.len() != theirs.len() {
                    die(format!("{}: the parameters are now {:?}", dir.item, theirs));
                }
                for (m, t) in real.iter().zip(theirs) {
                    if *m != t {
                        renames.push((m.to_string(), t.clone()));
                    }
                }
            }
            s.clone()
        }
        None => ex.sig.clone(),
    };
    let mut header = header;
    let mut body = ex.body.clone();
    let mut loops: HashMap<String, String> = HashMap::new();
    for (k, t) in dir.all("loop") {
        loops.insert(k.to_string(), t.to_string());
    }
    for (m, t) in &renames {
        header = word_replace(&header, m, t);
        spec = word_replace(&spec, m, t);
        for v in loops.values_mut() {
            *v = word_replace(v, m, t);
        }
    }
    let renamed = |t: &str| renames.iter().fold(t.to_string(), |t, (a, b)| word_replace(&t, a, b));
    // loop contracts
    let mut used = vec![];
    for k in 0..ex.loops.len() {
        let marker = format!("__verif_loop__ ({k}usize) ;");
        body = token_replace(&body, &format!("__verif_loop__({k}usize);"), &format!("__VERIF_LOOP_{k}__")).unwrap_or_else(|| die(format!("loop {k} of {} lost", dir.item)));
        let _ = marker;
        let marker = format!("__VERIF_LOOP_{k}__");
        let name = &ex.loops[k];
        // `loop NAME?if=TEXT:` where the body has that word, or that text when it is not a word
        let bare: String = body.chars().filter(|c| !c.is_whitespace()).collect();
        let has = |w: &str| match w.chars().all(|c| c.is_alphanumeric() || c == '_') {
            true => word_replace(&body, w, "__W__") != body,
            false => bare.contains(w),
        };
        let when = loops.iter().filter(|(k, _)| k.strip_prefix(&format!("{name}?if=")).map_or(false, |w| has(w))).max_by_key(|(k, _)| (k.len(), k.as_str())).map(|(_, t)| t);
        let inv = when.or_else(|| loops.get(name)).or_else(|| loops.get(&format!("{name}?"))).cloned().unwrap_or_default();
        let inv = match ex.sources.get(name) {
            Some(s) => word_replace(&inv, &format!("__src_{name}"), s),
            None => inv,
        };
        if inv.is_empty() {
            die(format!("{}: there is no loop contract for loop {name}", dir.item));
        }
        used.push(name.clone());
        let at = body.find(&marker).unwrap_or_else(|| die(format!("marker {marker} missing in {}: {body}", dir.item)));
        // the marker is the first statement of the loop body: move the contract before the brace
        let mut brace = body[..at].rfind('{').unwrap();
        if let Some((_, t)) = dir.all("before").find(|b| b.0 == name.as_str()) {
            // proof text before the loop, and before its label
            let head = &body[..brace];
            let mut kw = ["while ", "loop "].iter().filter_map(|w| head.rfind(w)).max().unwrap_or_else(|| die("no loop keyword"));
            let up = body[..kw].trim_end();
            if let Some(l) = up.strip_suffix(':') {
                kw = l.rfind('\'').unwrap();
            }
            let t = renamed(t);
            body.insert_str(kw, &format!("{t} "));
            brace += t.len() + 1;
        }
        let at = body.find(&marker).unwrap();
        // proof text at the beginning and the end of the loop's body, and behind the loop
        let sect = |w: &str| dir.all(w).find(|b| b.0 == name.as_str()).map(|b| renamed(b.1)).unwrap_or_default();
        let (begin, end, after) = (sect("begin"), sect("end"), sect("after"));
        let mut rest = body[at + marker.len()..].to_string();
        if !(end.is_empty() && after.is_empty()) {
            let close = closing_brace(&rest).unwrap_or_else(|| die("no end of the loop"));
            rest = format!("{} {end} }} {after} {}", &rest[..close], &rest[close + 1..]);
        }
        body = format!("{}\n        {}\n    {{ {begin} {rest}", &body[..brace], inv);
        if let Some(b) = token_replace(&body, &format!("__verif_cont__({k}usize);"), "__VERIF_CONT__") {
            body = b.replace("__VERIF_CONT__", &end);
        }
    }
    for (k, _) in dir.all("loop") {
        if !k.contains('?') && !used.iter().any(|u| u == k) {
            die(format!("{}: loop {k} is not there any more (loops: {:?})", dir.item, ex.loops));
        }
    }
    if let Some(t) = dir.get("exit").map(|s| renamed(s)) {
        body = token_replace(&body, "__verif_exit__();", "__VERIF_EXIT__").unwrap_or(body).replace("__VERIF_EXIT__", &t);
    }
    for (k, (_, t)) in dir.all("at").enumerate() {
        let t = renamed(t);
        body = token_replace(&body, &format!("__verif_at__({k}usize);"), "__VERIF_AT__").unwrap_or(body).replace("__VERIF_AT__", &t);
    }
    let loops_sig = ex.loops.join(",");
    let pre = dir.get("pre").map(|s| renamed(s)).unwrap_or_default();
    let attr = dir.get("attr").unwrap_or("");
    if !pre.is_empty() {
        let b = body.find('{').unwrap();
        body = format!("{}\n    {}\n{}", &body[..b + 1], pre, &body[b + 1..]);
    }
    if let Some(post) = dir.get("post").map(|s| renamed(s)) {
        // proof text before the closing brace, for functions returning nothing
        let b = body.rfind('}').unwrap();
        body = format!("{}\n    {}\n{}", &body[..b], post, &body[b..]);
    }
    let attr = attr.to_string();
    Made { header, spec, body, attr, ex, loops_sig }
}

/// `-> (r: T)` and Tracked parameters are Verus syntax
fn strip_verus(s: &str) -> String {
    let s = s.trim_start_matches("pub ").replace("Tracked(tr): Tracked<", "tr: Tracked<").replace("Ghost(trg): Ghost<", "trg: Ghost<");
    if let Some(p) = s.rfind("->") {
        let tail = s[p + 2..].trim();
        if tail.starts_with('(') && tail.contains(": ") && tail.ends_with(')') {
            let inner = &tail[1..tail.len() - 1];
            let (_, ty) = inner.split_once(':').unwrap();
            return format!("{} -> {}", &s[..p], ty.trim());
        }
    }
    s
}

pub struct Extracted {
    pub sig: String,
    pub params: Vec<String>,
    pub free_sig: bool,
    pub body: String,
    pub line: usize,
    pub loops: Vec<String>,
    pub sources: HashMap<String, String>,
    pub dropped: Vec<String>,
    pub inlined: Vec<String>,
}
impl Extracted {
    fn name_in(&self, header: &str) -> String {
        let p = header.find("fn ").unwrap() + 3;
        header[p..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
    }
}
pub fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
