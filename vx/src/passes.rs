use crate::{die, pretty, token_replace, ts, Dir, Extracted};
use quote::{format_ident, quote};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// every function the unit declares a contract for
pub fn declared_fns(unit: &str) -> HashSet<String> {
    let mut s = HashSet::new();
    for (i, _) in unit.match_indices("fn ") {
        // the unit's own vocabulary is not code
        if unit[..i].ends_with("spec ") || unit[..i].ends_with("proof ") {
            continue;
        }
        let n: String = unit[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        s.insert(n);
    }
    for k in ["const ", "static "] {
        for (i, _) in unit.match_indices(k) {
            let n: String = unit[i + k.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            s.insert(format!("const {n}"));
        }
    }
    // copied from the repository
    for (i, _) in unit.match_indices("/*@type") {
        if let Some(n) = unit[i..].lines().next().and_then(|l| l.split("item=").nth(1)) {
            let n = n.split_whitespace().next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
            s.insert(format!("const {n}"));
        }
    }
    s
}

thread_local! {
    /// parameters that are shared references to vectors in the unit's signature
    pub static SHARED: std::cell::RefCell<HashSet<String>> = Default::default();
    /// the functions of the unit that return a `Result`
    static RESULTS: std::cell::RefCell<HashSet<String>> = Default::default();
}
/// the ghost parameter of a signature: its name and the type of the ghost state
fn tracked(sig: &str) -> Vec<(String, String)> {
    sig.match_indices("Tracked(").filter_map(|(i, _)| {
        let t = &sig[i + 8..];
        let (name, t) = t.split_once("): Tracked<&")?;
        let t = t.trim_start_matches(|c: char| c == '\'').trim_start_matches("a ").strip_prefix("mut ")?;
        let end = t.find('>')?;
        Some((name.to_string(), t[..end].to_string()))
    }).collect()
}
thread_local! {
    /// functions of the unit that all take the same ghost state
    static EFFECTS: std::cell::RefCell<HashMap<String, String>> = Default::default();
}
/// a call of a function that takes ghost state is given it wherever the caller has it
pub fn note_effects(unit: &str) {
    let mut all: HashMap<String, Option<String>> = HashMap::new();
    for (i, _) in unit.match_indices("fn ") {
        if unit[..i].ends_with("spec ") || unit[..i].ends_with("proof ") {
            continue;
        }
        let n: String = unit[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let t = tracked(unit[i..].lines().next().unwrap_or(""));
        let t = if t.len() == 1 { Some(t[0].1.clone()) } else { None };
        all.entry(n).and_modify(|x| if *x != t { *x = None }).or_insert(t);
    }
    EFFECTS.with(|e| *e.borrow_mut() = all.into_iter().filter_map(|(n, t)| Some((n, t?))).collect());
}
pub fn note_results(unit: &str) {
    let (mut yes, mut no) = (HashSet::new(), HashSet::new());
    for (i, _) in unit.match_indices("fn ") {
        let n: String = unit[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        let line = unit[i..].lines().next().unwrap_or("");
        let Some(k) = line.rfind("-> ") else { continue };
        let ret = line[k + 3..].trim_start_matches('(');
        let ret = ret.split_once(": ").filter(|x| x.0.chars().all(|c| c.is_alphanumeric() || c == '_')).map_or(ret, |x| x.1);
        if ret.starts_with("Result<") || ret.starts_with("io::Result<") {
            yes.insert(n);
        } else {
            no.insert(n);
        }
    }
    RESULTS.with(|r| *r.borrow_mut() = yes.difference(&no).cloned().collect());
}
fn gives_result(e: &Expr) -> bool {
    let known = |n: &str| RESULTS.with(|r| r.borrow().contains(n));
    match e {
        Expr::Paren(p) => gives_result(&p.expr),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| known(&s.ident.to_string()))),
        Expr::MethodCall(m) => match m.method.to_string().as_str() {
            "map_err" | "ok_or" | "ok_or_else" => true,
            "map" | "and_then" | "or_else" | "as_ref" | "as_mut" | "as_deref" | "cloned" | "inspect" => gives_result(&m.receiver),
            n => known(n),
        },
        // a combinator already taken apart
        Expr::Match(m) => m.arms.last().map_or(false, |a| matches!(&*a.body, Expr::Call(c) if matches!(ts(&c.func).as_str(), "Ok" | "Err"))),
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(x, None)) if gives_result(x)),
        _ => false,
    }
}

pub fn param_names(sig: &Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Receiver(_) => None,
            FnArg::Typed(t) => Some(match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                p => ts(p).replace("mut ", ""),
            }),
        })
        .collect()
}

// ---------------------------------------------------------------- cfg
fn cfg_true(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => {
            let s = ts(p);
            s == "unix" || s == "debug_assertions"
        }
        Meta::NameValue(nv) => {
            let k = ts(&nv.path);
            let v = ts(&nv.value);
            (k == "target_os" && v == "\"linux\"") || (k == "target_family" && v == "\"unix\"") || (k == "target_arch" && v == "\"x86_64\"") || (k == "target_pointer_width" && v == "\"64\"")
        }
        Meta::List(l) => {
            let inner: Vec<Meta> = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default();
            match ts(&l.path).as_str() {
                "not" => !inner.iter().all(cfg_true),
                "any" => inner.iter().any(cfg_true),
                "all" => inner.iter().all(cfg_true),
                _ => false,
            }
        }
    }
}
fn enabled(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if !a.path().is_ident("cfg") {
            return true;
        }
        match &a.meta {
            Meta::List(l) => l.parse_args::<Meta>().map(|m| cfg_true(&m)).unwrap_or(true),
            _ => true,
        }
    })
}

struct Clean<'a> {
    dropped: &'a mut Vec<String>,
}
fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        _ => &[],
    }
}
fn stmt_enabled(s: &Stmt) -> bool {
    match s {
        Stmt::Local(l) => enabled(&l.attrs),
        Stmt::Expr(e, _) => enabled(expr_attrs(e)),
        Stmt::Macro(m) => enabled(&m.attrs),
        Stmt::Item(_) => true,
    }
}
fn is_log(m: &Macro) -> bool {
    let p = ts(&m.path).replace(' ', "");
    p.starts_with("log::") || ["eprintln", "println", "debug", "error", "warn", "info", "trace", "eprint", "print"].contains(&p.as_str())
}
fn assert_call(m: &Macro) -> Option<Expr> {
    let p = ts(&m.path).replace(' ', "");
    let args: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
    Some(match p.as_str() {
        "assert" | "debug_assert" => {
            let a = &args[0];
            parse_quote!(__assert(#a))
        }
        "assert_eq" | "debug_assert_eq" => {
            let (a, b) = (&args[0], &args[1]);
            parse_quote!(__assert(#a == #b))
        }
        "assert_ne" | "debug_assert_ne" => {
            let (a, b) = (&args[0], &args[1]);
            parse_quote!(__assert(#a != #b))
        }
        "unreachable" | "panic" | "todo" | "unimplemented" => parse_quote!(__unreachable()),
        _ => return None,
    })
}
impl VisitMut for Clean<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| {
            let k = stmt_enabled(s);
            if !k {
                self.dropped.push(format!("cfg-disabled statement `{}`", ts(s).chars().take(60).collect::<String>()));
            }
            k
        });
        // constants of a block are values of the whole block
        let mut consts = vec![];
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Const(c)) => {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                consts.push(parse_quote!(let #n: #t = #e;));
                false
            }
            _ => true,
        });
        b.stmts.splice(0..0, consts);
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Macro(m) = &b.stmts[i] {
                if m.mac.path.is_ident("thread_local") {
                    self.dropped.push(format!("declaration `{}`", ts(&m.mac).chars().take(60).collect::<String>()));
                    b.stmts.remove(i);
                    continue;
                }
                if is_log(&m.mac) {
                    self.dropped.push(format!("logging `{}`", ts(&m.mac).chars().take(60).collect::<String>()));
                    b.stmts.remove(i);
                    continue;
                }
                if let Some(e) = assert_call(&m.mac) {
                    let semi = m.semi_token;
                    b.stmts[i] = Stmt::Expr(e, semi);
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| {
            let k = enabled(&a.attrs);
            if !k {
                self.dropped.push(format!("cfg-disabled arm `{}`", ts(&a.pat)));
            }
            k
        });
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if is_log(&m.mac) {
                self.dropped.push(format!("logging `{}`", ts(&m.mac).chars().take(60).collect::<String>()));
                *e = parse_quote!(());
                return;
            }
            if let Some(x) = assert_call(&m.mac) {
                *e = x;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

// ---------------------------------------------------------------- local macro_rules
type Rules = Vec<(Vec<String>, proc_macro2::TokenStream)>;
fn parse_rules(ts_: proc_macro2::TokenStream) -> Rules {
    use proc_macro2::TokenTree::*;
    let v: Vec<_> = ts_.into_iter().collect();
    let mut i = 0;
    let mut r = vec![];
    while i + 3 < v.len() + 0 || i + 3 == v.len() - 0 {
        let (Some(Group(pat)), Some(Group(body))) = (v.get(i), v.get(i + 3)) else { break };
        let p: Vec<_> = pat.stream().into_iter().collect();
        let mut names = vec![];
        let mut j = 0;
        while j < p.len() {
            match &p[j] {
                Punct(x) if x.as_char() == '$' => {
                    if let Some(Ident(n)) = p.get(j + 1) {
                        names.push(n.to_string());
                        j += 4;
                        continue;
                    }
                    die("macro repetition is not supported");
                }
                _ => j += 1,
            }
        }
        r.push((names, body.stream()));
        i += 5;
    }
    r
}
fn subst_tokens(t: proc_macro2::TokenStream, m: &HashMap<String, proc_macro2::TokenStream>) -> proc_macro2::TokenStream {
    use proc_macro2::{Delimiter, Group as G, TokenTree::*};
    let v: Vec<_> = t.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            Punct(p) if p.as_char() == '$' => {
                if let Some(Ident(n)) = v.get(i + 1) {
                    if let Some(x) = m.get(&n.to_string()) {
                        out.push(Group(G::new(Delimiter::None, x.clone())));
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            Group(g) => out.push(Group(G::new(g.delimiter(), subst_tokens(g.stream(), m)))),
            x => out.push(x.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
struct LocalMacros {
    rules: HashMap<String, Rules>,
}
impl LocalMacros {
    fn expand(&self, m: &Macro) -> Option<Vec<Stmt>> {
        let name = m.path.get_ident()?.to_string();
        let rules = self.rules.get(&name)?;
        let args: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
        let (names, body) = rules.iter().find(|r| r.0.len() == args.len())?;
        let map = names.iter().cloned().zip(args.iter().map(|a| quote!(#a))).collect();
        let t = subst_tokens(body.clone(), &map);
        // re-tokenise so that invisible groups disappear
        let text = t.to_string();
        let b: Block = syn::parse_str(&format!("{{ {text} }}")).unwrap_or_else(|e| die(format!("macro {name}: {e}")));
        Some(b.stmts)
    }
}
impl VisitMut for LocalMacros {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        let mut fuel = 1000;
        while i < b.stmts.len() {
            let exp = match &b.stmts[i] {
                Stmt::Item(Item::Macro(m)) if m.ident.is_some() => {
                    self.rules.insert(m.ident.as_ref().unwrap().to_string(), parse_rules(m.mac.tokens.clone()));
                    Some(vec![])
                }
                Stmt::Macro(m) => self.expand(&m.mac),
                Stmt::Expr(Expr::Macro(m), _) => self.expand(&m.mac),
                _ => None,
            };
            match exp {
                Some(st) => {
                    fuel -= 1;
                    if fuel == 0 {
                        die("macro recursion");
                    }
                    b.stmts.splice(i..i + 1, st);
                }
                None => i += 1,
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- early returns
struct HasReturn(bool, bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.1 = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
fn has_return(s: &Stmt) -> bool {
    let mut h = HasReturn(false, false);
    syn::visit::Visit::visit_stmt(&mut h, s);
    h.0
}
fn expr_has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false, false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
pub fn block_has_return_or_try(b: &Block) -> (bool, bool) {
    let mut h = HasReturn(false, false);
    syn::visit::Visit::visit_block(&mut h, b);
    (h.0, h.1)
}
/// Rewrite early returns into nested conditionals so that the block's value is the returned one.
pub fn deret(stmts: &[Stmt]) -> Vec<Stmt> {
    let Some(p) = stmts.iter().position(has_return) else { return stmts.to_vec() };
    let mut out: Vec<Stmt> = stmts[..p].to_vec();
    let rest = &stmts[p + 1..];
    match &stmts[p] {
        Stmt::Expr(Expr::Return(r), _) => {
            let e: Expr = r.expr.as_deref().cloned().unwrap_or(parse_quote!(()));
            out.push(Stmt::Expr(e, None));
        }
        Stmt::Expr(Expr::If(i), _) => {
            let mut i = i.clone();
            let mut then = i.then_branch.stmts.clone();
            then.extend(if diverges(&then) { vec![] } else { rest.to_vec() });
            i.then_branch.stmts = deret(&then);
            let els: Vec<Stmt> = match &i.else_branch {
                Some((_, e)) => match &**e {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                },
                None => vec![],
            };
            let mut els2 = els;
            if !diverges(&els2) {
                els2.extend(rest.to_vec());
            }
            let els2 = deret(&els2);
            i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: els2 } }))));
            out.push(Stmt::Expr(Expr::If(i), None));
        }
        Stmt::Expr(Expr::Match(m), semi) => {
            let mut m = m.clone();
            let _ = semi;
            for a in &mut m.arms {
                let mut st = match &*a.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), if rest.is_empty() { None } else { Some(Default::default()) })],
                };
                if !diverges(&st) {
                    st.extend(rest.to_vec());
                }
                let st = deret(&st);
                a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: st } }));
                a.comma = Some(Default::default());
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
        }
        Stmt::Expr(Expr::Unsafe(u), _) if rest.is_empty() => {
            let st = deret(&u.block.stmts);
            out.push(Stmt::Expr(parse_quote!(unsafe { #(#st)* }), None));
        }
        Stmt::Expr(Expr::Block(b), _) if rest.is_empty() => {
            let st = deret(&b.block.stmts);
            out.push(Stmt::Expr(parse_quote!({ #(#st)* }), None));
        }
        // `let p = e else { return r };`
        Stmt::Local(l) if matches!(&l.init, Some(LocalInit { diverge: Some(_), .. })) && !expr_has_return(&l.init.as_ref().unwrap().expr) => {
            let init = l.init.as_ref().unwrap();
            let (pat, e) = (untype(&l.pat), &init.expr);
            let els = match &*init.diverge.as_ref().unwrap().1 {
                Expr::Block(b) => b.block.stmts.clone(),
                e => vec![Stmt::Expr(e.clone(), None)],
            };
            if !diverges(&els) {
                die("let else that does not return");
            }
            let (els, rest) = (deret(&els), deret(rest));
            out.push(Stmt::Expr(parse_quote!(match #e { #pat => { #(#rest)* } _ => { #(#els)* } }), None));
        }
        // `let p = match e { .. => return r, .. };`
        Stmt::Local(l) if matches!(&l.init, Some(LocalInit { diverge: None, expr, .. }) if matches!(&**expr, Expr::Match(_) | Expr::If(_))) => {
            let bind = |b: Vec<Stmt>| -> Vec<Stmt> {
                if diverges(&b) {
                    return b;
                }
                let mut b = b;
                let v: Expr = match b.pop() {
                    Some(Stmt::Expr(e, None)) => e,
                    Some(s) => {
                        b.push(s);
                        parse_quote!(())
                    }
                    None => parse_quote!(()),
                };
                if let Expr::Return(_) = v {
                    b.push(Stmt::Expr(v, None));
                    return b;
                }
                let mut l2 = l.clone();
                l2.init.as_mut().unwrap().expr = Box::new(v);
                b.push(Stmt::Local(l2));
                b.extend(rest.to_vec());
                b
            };
            let stmts = |e: &Expr| match e {
                Expr::Block(b) => b.block.stmts.clone(),
                e => vec![Stmt::Expr(e.clone(), None)],
            };
            let block = |v: Vec<Stmt>| Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: v } });
            let mut e = (*l.init.as_ref().unwrap().expr).clone();
            match &mut e {
                Expr::Match(m) => {
                    for a in &mut m.arms {
                        a.body = Box::new(block(deret(&bind(stmts(&a.body)))));
                        a.comma = Some(Default::default());
                    }
                }
                Expr::If(i) => {
                    i.then_branch.stmts = deret(&bind(i.then_branch.stmts.clone()));
                    let Some((_, els)) = &mut i.else_branch else { die("let with an if without else") };
                    **els = block(deret(&bind(stmts(els))));
                }
                _ => {}
            }
            out.push(Stmt::Expr(e, None));
        }
        s => die(format!("early return in an unsupported position: {}", ts(s).chars().take(120).collect::<String>())),
    }
    out
}
fn diverges(s: &[Stmt]) -> bool {
    matches!(s.last(), Some(Stmt::Expr(Expr::Return(_) | Expr::Continue(_) | Expr::Break(_), _)))
}

// ---------------------------------------------------------------- inlining of helpers
struct Inline<'a> {
    known: &'a HashSet<String>,
    methods: HashMap<String, (Signature, Block)>,
    fns: HashMap<String, (Signature, Block)>,
    /// methods of the other types of the file
    others: HashMap<String, (Signature, Block)>,
    consts: HashMap<String, Expr>,
    inlined: Vec<String>,
    depth: u32,
    changed: bool,
}
impl Inline<'_> {
    fn make(&mut self, name: &str, sig: &Signature, block: &Block, args: Vec<Expr>) -> Option<Expr> {
        self.build(name, sig, block, args, false)
    }
    /// `tail`: the call's value is the caller's, so the helper's `return` and `?` are the caller's too
    fn build(&mut self, name: &str, sig: &Signature, block: &Block, args: Vec<Expr>, tail: bool) -> Option<Expr> {
        let (ret, tr) = if tail { (false, false) } else { block_has_return_or_try(block) };
        if sig.asyncness.is_some() {
            return None;
        }
        self.depth += 1;
        if self.depth > 50 {
            die(format!("recursive helper {name}"));
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut b = block.clone();
        let pats: Vec<_> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t.clone()) } else { None }).collect();
        if pats.len() != args.len() {
            return None;
        }
        // a parameter may have the name of something a later argument mentions
        let names = param_names(sig);
        let clash = args.iter().enumerate().any(|(k, a)| {
            let mut w = Words(Default::default());
            syn::visit::Visit::visit_expr(&mut w, a);
            names[..k].iter().any(|n| w.0.contains(n))
        });
        if clash {
            for (k, a) in args.iter().enumerate() {
                let t = format_ident!("__arg{}_{}", self.depth, k);
                stmts.push(parse_quote!(let #t = #a;));
            }
        }
        for (k, (p, a)) in pats.iter().zip(&args).enumerate() {
            let pat = &p.pat;
            if clash {
                let t = format_ident!("__arg{}_{}", self.depth, k);
                stmts.push(parse_quote!(let #pat = #t;));
            } else if ts(pat) != ts(a) {
                if let (Pat::Ident(PatIdent { by_ref: None, mutability: None, ident, .. }), true) = (&**pat, is_simple(a)) {
                    // a name or a literal takes the parameter's place, unless the helper uses the name for something else
                    let mut w = Words(Default::default());
                    syn::visit::Visit::visit_block(&mut w, &b);
                    let mut binds = Binds(Default::default());
                    syn::visit::Visit::visit_block(&mut binds, &b);
                    if !w.0.contains(&ts(a)) && !binds.0.contains(&ident.to_string()) {
                        NameTo { name: ident.to_string(), to: a.clone() }.visit_block_mut(&mut b);
                        continue;
                    }
                }
                stmts.push(parse_quote!(let #pat = #a;));
            }
        }
        let mut dropped = vec![];
        LocalMacros { rules: Default::default() }.visit_block_mut(&mut b);
        Clean { dropped: &mut dropped }.visit_block_mut(&mut b);
        let mut body = if ret { deret(&b.stmts) } else { b.stmts };
        if tr {
            let out = ts(&sig.output).replace(' ', "");
            if !(out.starts_with("->Result<") || out.starts_with("->io::Result<") || out.starts_with("->Option<")) {
                return None;
            }
            body = untry(&body, out.starts_with("->Option<"))?;
        }
        stmts.extend(body);
        if !self.inlined.contains(&name.to_string()) {
            self.inlined.push(name.to_string());
        }
        self.changed = true;
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } }))
    }
}
impl Inline<'_> {
    /// calls of helpers whose value the caller returns
    fn tails(&mut self, e: &mut Expr, out: &str) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.tail_of(&mut b.block, out),
            Expr::Unsafe(b) => self.tail_of(&mut b.block, out),
            Expr::Paren(p) => self.tails(&mut p.expr, out),
            Expr::If(i) => {
                self.tail_of(&mut i.then_branch, out);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tails(x, out);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.tails(&mut a.body, out)),
            _ => {
                if let Some(x) = self.tail_call(e, out) {
                    *e = x;
                }
            }
        }
    }
    fn tail_of(&mut self, b: &mut Block, out: &str) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tails(e, out);
        }
    }
    fn tail_call(&mut self, e: &Expr, out: &str) -> Option<Expr> {
        let (n, sig, block, args) = match e {
            Expr::MethodCall(m) if ts(&m.receiver) == "self" => {
                let n = m.method.to_string();
                let (s, b) = self.methods.get(&n).cloned()?;
                (n, s, b, m.args.iter().cloned().collect::<Vec<_>>())
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last()?.clone();
                let (s, b) = match segs.len() {
                    1 => self.fns.get(&n).cloned()?,
                    2 if segs[0] == "Self" => self.methods.get(&n).cloned().filter(|x| x.0.receiver().is_none())?,
                    _ => return None,
                };
                (n, s, b, c.args.iter().cloned().collect())
            }
            _ => return None,
        };
        if self.known.contains(&n) || ts(&sig.output) != out || !block_has_return_or_try(&block).0 && !block_has_return_or_try(&block).1 {
            return None;
        }
        self.build(&n, &sig, &block, args, true)
    }
}
/// `return helper(..)`
struct ReturnTails<'a, 'b>(&'a mut Inline<'b>, String);
impl VisitMut for ReturnTails<'_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Closure(_) => return,
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.0.tails(x, &self.1);
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn is_simple(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => matches!(**expr, Expr::Lit(_)),
        Expr::Path(p) => p.qself.is_none() && p.path.get_ident().is_some(),
        _ => false,
    }
}
/// names bound by patterns
struct Binds(HashSet<String>);
impl<'a> syn::visit::Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.insert(p.ident.to_string());
    }
}
/// `==` and `!=` as calls of a function of the unit
struct EqFn(Ident);
impl VisitMut for EqFn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let f = &self.0;
        if let Expr::Binary(b) = e {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Eq(_) => *e = parse_quote!(#f(&#l, &#r)),
                BinOp::Ne(_) => *e = parse_quote!((!#f(&#l, &#r))),
                _ => {}
            }
        }
    }
}
struct Count {
    name: String,
    n: usize,
}
impl<'a> syn::visit::Visit<'a> for Count {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.n += (*i == self.name) as usize;
    }
}
/// the names an expression mentions
struct Words(HashSet<String>);
impl<'a> syn::visit::Visit<'a> for Words {
    fn visit_ident(&mut self, i: &'a Ident) {
        self.0.insert(i.to_string());
    }
}
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let r = match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ts(&m.receiver) == "self" && !self.known.contains(&n) {
                    self.methods.get(&n).cloned().and_then(|(s, b)| self.make(&n, &s, &b, m.args.iter().cloned().collect()))
                } else if ts(&m.receiver) != "self" && is_place(&m.receiver) && !self.known.contains(&n) && !RESERVED.contains(&n.as_str()) {
                    // a method of another type of the file, on a place
                    self.others.get(&n).cloned().and_then(|(s, mut b)| {
                        s.receiver()?;
                        let mut w = Words(Default::default());
                        syn::visit::Visit::visit_expr(&mut w, &m.receiver);
                        let mut inner = Words(Default::default());
                        b.stmts.iter().for_each(|x| syn::visit::Visit::visit_stmt(&mut inner, x));
                        let locals: HashSet<String> = inner.0.iter().cloned().chain(param_names(&s)).collect();
                        // the receiver's first name must mean the same in the body
                        let head = ts(&m.receiver).split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string();
                        if locals.contains(&head) || inner.0.contains("Self") {
                            return None;
                        }
                        NameTo { name: "self".into(), to: (*m.receiver).clone() }.visit_block_mut(&mut b);
                        self.make(&n, &s, &b, m.args.iter().cloned().collect())
                    })
                } else {
                    None
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.last().unwrap().clone();
                    if self.known.contains(&n) {
                        None
                    } else if segs.len() == 1 {
                        self.fns.get(&n).cloned().and_then(|(s, b)| self.make(&n, &s, &b, c.args.iter().cloned().collect()))
                    } else if segs.len() == 2 && segs[0] == "Self" {
                        self.methods.get(&n).cloned().and_then(|(s, b)| if s.receiver().is_none() { self.make(&n, &s, &b, c.args.iter().cloned().collect()) } else { None })
                    } else {
                        None
                    }
                }
                _ => None,
            },
            // a constant of the file the unit knows nothing about
            Expr::Path(p) if p.qself.is_none() => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let key = match segs.len() {
                    1 => segs[0].clone(),
                    2 if segs[0] == "Self" => format!("Self::{}", segs[1]),
                    _ => String::new(),
                };
                self.consts.get(&key).cloned()
            }
            _ => None,
        };
        if let Some(x) = r {
            *e = x;
        }
    }
}
/// names of library methods that are never taken for a helper of the file
const RESERVED: &[&str] = &["clone", "drop", "eq", "fmt", "default", "from", "into", "deref", "deref_mut", "next", "len", "push", "pop", "get", "iter", "lock", "read", "write", "recv", "send", "take", "map", "not", "hash", "cmp"];

// ---------------------------------------------------------------- desugaring
/// `|`, `&`, `^` and their assignments on booleans, which the verifier only knows for integers
#[derive(Default)]
struct Bools {
    vars: HashSet<String>,
}
impl Bools {
    fn note(&mut self, p: &Pat, init: Option<&Expr>) {
        match p {
            Pat::Type(t) if ts(&t.ty) == "bool" => {
                if let Pat::Ident(i) = &*t.pat {
                    self.vars.insert(i.ident.to_string());
                }
            }
            Pat::Ident(i) if init.map_or(false, |e| self.is(e)) => {
                self.vars.insert(i.ident.to_string());
            }
            Pat::Tuple(t) => {
                if let Some(Expr::Tuple(e)) = init {
                    for (p, e) in t.elems.iter().zip(&e.elems) {
                        self.note(p, Some(e));
                    }
                }
            }
            _ => {}
        }
    }
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
            Expr::Paren(p) => self.is(&p.expr),
            Expr::Group(p) => self.is(&p.expr),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.vars.contains(&i.to_string())),
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && self.is(&u.expr),
            Expr::Let(_) => true,
            Expr::Binary(b) => match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => true,
                BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) => self.is(&b.left) || self.is(&b.right),
                _ => false,
            },
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n.starts_with("is_") || n.starts_with("contains") || ["any", "all", "starts_with", "ends_with", "eq", "ne", "validate", "compatible"].contains(&n.as_str())
            }
            Expr::Macro(m) => m.mac.path.is_ident("matches"),
            Expr::Match(m) => m.arms.iter().any(|a| self.is(&a.body)),
            Expr::If(i) => self.tail(&i.then_branch) || i.else_branch.as_ref().map_or(false, |x| self.is(&x.1)),
            Expr::Block(b) => self.tail(&b.block),
            _ => false,
        }
    }
    fn tail(&self, b: &Block) -> bool {
        matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if self.is(e))
    }
}
impl VisitMut for Bools {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        self.note(&l.pat, l.init.as_ref().map(|i| &*i.expr));
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Binary(b) = e else { return };
        if !(self.is(&b.left) || self.is(&b.right)) {
            return;
        }
        let (l, r) = (&b.left, &b.right);
        // both sides are evaluated, in order
        let new: Expr = match b.op {
            BinOp::BitOr(_) => parse_quote!({ let __l: bool = #l; let __r: bool = #r; __l || __r }),
            BinOp::BitAnd(_) => parse_quote!({ let __l: bool = #l; let __r: bool = #r; __l && __r }),
            BinOp::BitXor(_) => parse_quote!({ let __l: bool = #l; let __r: bool = #r; __l != __r }),
            // an assignment evaluates its right side first
            BinOp::BitOrAssign(_) => parse_quote!({ let __r: bool = #r; #l = #l || __r; }),
            BinOp::BitAndAssign(_) => parse_quote!({ let __r: bool = #r; #l = #l && __r; }),
            BinOp::BitXorAssign(_) => parse_quote!({ let __r: bool = #r; #l = #l != __r; }),
            _ => return,
        };
        *e = new;
    }
}

struct Desugar {
    loops: Vec<String>,
    /// what a loop that consumes its items takes them from: `__src_LOOP` in its contract
    sources: HashMap<String, String>,
    counts: HashMap<String, usize>,
    keep: HashSet<String>,
    modes: HashMap<String, String>,
}
impl Desugar {
    fn name(&mut self, kind: &str) -> (String, usize) {
        let c = self.counts.entry(kind.to_string()).or_default();
        let n = format!("{kind}{c}");
        *c += 1;
        self.loops.push(n.clone());
        (n, self.loops.len() - 1)
    }
    fn marker(k: usize) -> Stmt {
        parse_quote!(__verif_loop__(#k);)
    }
}
fn iter_base(e: &Expr) -> Option<(Expr, &'static str)> {
    match e {
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => Some(((*m.receiver).clone(), "index")),
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" => Some(((*m.receiver).clone(), "index_mut")),
        Expr::MethodCall(m) if m.method == "drain" && m.args.len() == 1 && ts(&m.args[0]) == ".." => Some(((*m.receiver).clone(), "drain")),
        Expr::Reference(r) if r.mutability.is_none() => Some(((*r.expr).clone(), "index")),
        Expr::Reference(r) => Some(((*r.expr).clone(), "index_mut")),
        Expr::Paren(p) => iter_base(&p.expr),
        _ => None,
    }
}
/// a chain of iterator adaptors over indexable things: how many items there are, and the item at an index
fn seq_of(e: &Expr) -> Option<(Expr, Box<dyn Fn(Expr) -> Expr>)> {
    match e {
        Expr::Paren(p) => seq_of(&p.expr),
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter" => {
            let b = (*m.receiver).clone();
            let b2 = b.clone();
            Some((parse_quote!(#b.len()), Box::new(move |i| parse_quote!(&#b2[#i]))))
        }
        // of a shared reference to a vector
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "into_iter" && SHARED.with(|s| s.borrow().contains(&ts(&m.receiver))) => {
            let b = (*m.receiver).clone();
            let b2 = b.clone();
            Some((parse_quote!(#b.len()), Box::new(move |i| parse_quote!(&#b2[#i]))))
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" => {
            let b = (*m.receiver).clone();
            let b2 = b.clone();
            Some((parse_quote!(#b.len()), Box::new(move |i| parse_quote!(&mut #b2[#i]))))
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "enumerate" => {
            let (n, g) = seq_of(&m.receiver)?;
            Some((n, Box::new(move |i| { let x = g(i.clone()); parse_quote!((#i, #x)) })))
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "rev" => {
            let (n, g) = seq_of(&m.receiver)?;
            let n2 = n.clone();
            Some((n, Box::new(move |i| g(parse_quote!((#n2 - 1 - #i))))))
        }
        Expr::MethodCall(m) if m.args.len() == 1 && m.method == "skip" => {
            let (n, g) = seq_of(&m.receiver)?;
            let k = m.args[0].clone();
            let k2 = k.clone();
            Some((parse_quote!((if #n >= #k { #n - #k } else { 0 })), Box::new(move |i| g(parse_quote!((#i + #k2))))))
        }
        Expr::MethodCall(m) if m.args.len() == 1 && m.method == "take" => {
            let (n, g) = seq_of(&m.receiver)?;
            let k = m.args[0].clone();
            Some((parse_quote!((if #n >= #k { #k } else { #n })), g))
        }
        Expr::MethodCall(m) if m.args.len() == 1 && m.method == "map" => {
            let (n, g) = seq_of(&m.receiver)?;
            let Expr::Closure(c) = &m.args[0] else {
                let f = m.args[0].clone();
                return matches!(f, Expr::Path(_)).then(|| -> (Expr, Box<dyn Fn(Expr) -> Expr>) { (n, Box::new(move |i| { let x = g(i); parse_quote!(#f(#x)) })) });
            };
            if c.inputs.len() != 1 {
                return None;
            }
            let pat = untype(&c.inputs[0]);
            let st = closure_stmts(c);
            Some((n, Box::new(move |i| { let x = g(i); parse_quote!({ let #pat = #x; #(#st)* }) })))
        }
        Expr::MethodCall(m) if m.args.len() == 1 && m.method == "chain" => {
            let (n1, g1) = seq_of(&m.receiver)?;
            let (n2, g2) = seq_of(&m.args[0])?;
            let k = n1.clone();
            Some((parse_quote!((#n1 + #n2)), Box::new(move |i| {
                let a = g1(i.clone());
                let b = g2(parse_quote!((#i - #k)));
                parse_quote!(if #i < #k { #a } else { #b })
            })))
        }
        Expr::Reference(r) if r.mutability.is_none() => {
            let b = (*r.expr).clone();
            let b2 = b.clone();
            Some((parse_quote!(#b.len()), Box::new(move |i| parse_quote!(&#b2[#i]))))
        }
        _ => None,
    }
}
fn has_try(e: &Expr) -> bool {
    block_has_return_or_try(&Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] }).1
}
/// evaluating it early or late makes no difference
fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_) => true,
        Expr::Field(f) => is_pure(&f.base),
        Expr::Paren(p) => is_pure(&p.expr),
        Expr::Reference(r) => is_pure(&r.expr),
        Expr::Cast(c) => is_pure(&c.expr),
        _ => false,
    }
}
/// takes the `?` that is evaluated first out of an expression
fn take_try(e: &mut Expr, name: &Ident) -> Option<Expr> {
    fn first<'a>(v: impl Iterator<Item = &'a mut Expr>, name: &Ident) -> Option<Expr> {
        for x in v {
            if has_try(x) {
                return take_try(x, name);
            }
            if !is_pure(x) {
                return None;
            }
        }
        None
    }
    match e {
        Expr::Try(t) if has_try(&t.expr) => take_try(&mut t.expr, name),
        Expr::Try(_) => {
            let x = e.clone();
            *e = parse_quote!(#name);
            Some(x)
        }
        Expr::MethodCall(m) if has_try(&m.receiver) => take_try(&mut m.receiver, name),
        Expr::MethodCall(m) => first(std::iter::once(&mut *m.receiver).chain(m.args.iter_mut()), name),
        Expr::Call(c) => first(c.args.iter_mut(), name),
        Expr::Tuple(t) => first(t.elems.iter_mut(), name),
        Expr::Array(t) => first(t.elems.iter_mut(), name),
        Expr::Struct(t) => first(t.fields.iter_mut().map(|f| &mut f.expr), name),
        Expr::Field(f) => take_try(&mut f.base, name),
        Expr::Paren(p) => take_try(&mut p.expr, name),
        Expr::Cast(p) => take_try(&mut p.expr, name),
        Expr::Reference(p) => take_try(&mut p.expr, name),
        Expr::Unary(p) => take_try(&mut p.expr, name),
        Expr::Index(i) => first([&mut *i.expr, &mut *i.index].into_iter(), name),
        Expr::Binary(b) if !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => first([&mut *b.left, &mut *b.right].into_iter(), name),
        _ => None,
    }
}
/// every `?` as a statement `let p = e?;` of its own
fn hoist_tries(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    let mut n = 0usize;
    for (k, s) in stmts.iter().enumerate() {
        let mut s = s.clone();
        loop {
            let name = format_ident!("__t{}", n);
            let e: &mut Expr = match &mut s {
                Stmt::Local(Local { init: Some(LocalInit { expr, diverge: None, .. }), .. }) => {
                    if let Expr::Try(t) = &mut **expr { &mut t.expr } else { expr }
                }
                Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Unsafe(_), None) if k + 1 == stmts.len() => break,
                Stmt::Expr(Expr::Try(t), Some(_)) if !has_try(&t.expr) => {
                    let t = t.clone();
                    s = parse_quote!(let _ = #t;);
                    break;
                }
                Stmt::Expr(e, _) => e,
                _ => break,
            };
            if !has_try(e) {
                break;
            }
            let t = take_try(e, &name)?;
            out.push(parse_quote!(let #name = #t;));
            n += 1;
        }
        out.push(s);
    }
    Some(out)
}
/// `?` in the branches of the last expression
fn untry_branches(e: &Expr, option: bool) -> Option<Expr> {
    let block = |b: &Block| Some(Block { brace_token: Default::default(), stmts: untry(&b.stmts, option)? });
    let mut e = e.clone();
    match &mut e {
        Expr::Block(b) if b.label.is_none() => b.block = block(&b.block)?,
        Expr::Unsafe(b) => b.block = block(&b.block)?,
        Expr::If(i) if !has_try(&i.cond) => {
            i.then_branch = block(&i.then_branch)?;
            if let Some((_, x)) = &mut i.else_branch {
                **x = untry_branches(x, option)?;
            }
        }
        Expr::Match(m) if !has_try(&m.expr) => {
            for a in &mut m.arms {
                if has_try(&a.body) {
                    let st = untry(&[Stmt::Expr((*a.body).clone(), None)], option)?;
                    *a.body = parse_quote!({ #(#st)* });
                }
            }
        }
        x if !has_try(x) => {}
        _ => return None,
    }
    Some(e)
}
/// `let p = e?; rest` as the match it stands for, so that the error is the value of the block
fn untry(stmts: &[Stmt], option: bool) -> Option<Vec<Stmt>> {
    let stmts = &hoist_tries(stmts)?;
    for (k, s) in stmts.iter().enumerate() {
        let b = Block { brace_token: Default::default(), stmts: vec![s.clone()] };
        if !block_has_return_or_try(&b).1 {
            continue;
        }
        if let (Stmt::Expr(e, None), true) = (s, k + 1 == stmts.len()) {
            let mut out = stmts[..k].to_vec();
            out.push(Stmt::Expr(untry_branches(e, option)?, None));
            return Some(out);
        }
        let Stmt::Local(l) = s else { return None };
        let init = l.init.as_ref()?;
        let Expr::Try(t) = &*init.expr else { return None };
        let inner = &t.expr;
        let ib = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((**inner).clone(), None)] };
        if block_has_return_or_try(&ib).1 {
            return None;
        }
        let pat = untype(&l.pat);
        let rest = untry(&stmts[k + 1..], option)?;
        let mut out = stmts[..k].to_vec();
        if option {
            out.push(Stmt::Expr(parse_quote!(match #inner { Some(#pat) => { #(#rest)* } None => None }), None));
            return Some(out);
        }
        out.push(Stmt::Expr(parse_quote!(match #inner { Ok(#pat) => { #(#rest)* } Err(__e) => Err(__e) }), None));
        return Some(out);
    }
    Some(stmts.to_vec())
}
fn closure_stmts(c: &ExprClosure) -> Vec<Stmt> {
    match &*c.body {
        Expr::Block(b) => deret(&b.block.stmts),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn untype(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}
fn is_uuid_pat(p: &Pat) -> Option<ExprPath> {
    match p {
        Pat::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "UUID") => Some(p.clone()),
        _ => None,
    }
}
fn uuid_fn(p: &ExprPath) -> Ident {
    let ty = match &p.qself {
        Some(q) => ts(&q.ty).replace(' ', ""),
        None => p.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string()).unwrap_or_default(),
    };
    let last = ty.rsplit("::").next().unwrap().to_string();
    format_ident!("uuid_of_{}", last)
}
/// `let mut i = 0; while i < n { ..; i += 1; }` where `i` is not used behind the loop
fn counted(st: &[Stmt]) -> Option<Expr> {
    let [Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr: from, diverge: None, .. }), .. }), Stmt::Expr(Expr::While(w), _), rest @ ..] = st else { return None };
    p.mutability?;
    let name = &p.ident;
    let Expr::Binary(ExprBinary { left, op: BinOp::Lt(_), right, .. }) = &*w.cond else { return None };
    let mut stmts = w.body.stmts.clone();
    let step = stmts.pop()?;
    let word = |x: &str, st: &[Stmt]| {
        let mut n = Count { name: x.to_string(), n: 0 };
        st.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut n, s));
        n.n > 0
    };
    struct Changes(HashSet<String>, bool);
    impl<'a> syn::visit::Visit<'a> for Changes {
        fn visit_expr_assign(&mut self, e: &'a ExprAssign) {
            self.0.insert(ts(&e.left));
            syn::visit::visit_expr_assign(self, e);
        }
        fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
            self.0.insert(ts(&e.left));
            syn::visit::visit_expr_binary(self, e);
        }
        fn visit_expr_reference(&mut self, e: &'a ExprReference) {
            if e.mutability.is_some() {
                self.0.insert(ts(&e.expr));
            }
            syn::visit::visit_expr_reference(self, e);
        }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.1 = true;
        }
    }
    let mut ch = Changes(Default::default(), false);
    stmts.iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut ch, s));
    let n = name.to_string();
    let end = ts(right);
    let ends = matches!(&**right, Expr::Path(_) | Expr::Lit(_));
    if ts(left) != n || ts(&step).replace(' ', "") != format!("{n}+=1;") || !ends || ch.1 || ch.0.contains(&n) || ch.0.contains(&end) || word(&n, rest) {
        return None;
    }
    let (lbl, from) = (&w.label, from);
    Some(parse_quote!(#lbl for #name in #from..#right { #(#stmts)* }))
}
/// whether the statements leave the loop they are the body of by an unlabelled `break`
fn leaves(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, b: &'a ExprBreak) {
            self.0 |= b.label.is_none();
        }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
/// `for p in xs.filter(|q| c) { .. }` is `for x in xs { if { let q = &x; c } { let p = x; .. } }`
fn peel(f: &mut ExprForLoop) -> bool {
    let Expr::MethodCall(m) = &*f.expr else { return false };
    if m.args.len() != 1 {
        return false;
    }
    let Expr::Closure(c) = &m.args[0] else { return false };
    if c.inputs.len() != 1 {
        return false;
    }
    let (q, st, body, p) = (untype(&c.inputs[0]), closure_stmts(c), f.body.stmts.clone(), &f.pat);
    let x = format_ident!("__y{}", ts(&f.expr).len());
    let new: Vec<Stmt> = match m.method.to_string().as_str() {
        "filter" => vec![parse_quote!(if { let #q = &#x; #(#st)* } { let #p = #x; #(#body)* })],
        "filter_map" => vec![parse_quote!(match { let #q = #x; #(#st)* } { Some(#p) => { #(#body)* } None => {} })],
        // every element of every group: nothing that leaves only one of the two loops
        "flat_map" if f.label.is_none() && !leaves(&f.body) && matches!(&st[..], [Stmt::Expr(_, None)]) => {
            let Stmt::Expr(e, _) = &st[0] else { unreachable!() };
            f.body.stmts = vec![parse_quote!(for #p in #e { #(#body)* })];
            f.pat = Box::new(q);
            f.expr = m.receiver.clone();
            return true;
        }
        "map" if seq_of(&f.expr).is_none() => vec![parse_quote!(let #p = { let #q = #x; #(#st)* };)].into_iter().chain(body).collect(),
        _ => return false,
    };
    f.body.stmts = new;
    let to = m.receiver.clone();
    f.pat = Box::new(parse_quote!(#x));
    f.expr = to;
    true
}
impl VisitMut for Desugar {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            // `xs.for_each(|x| ..);`
            let each = match &b.stmts[i] {
                Stmt::Expr(Expr::MethodCall(m), _) if m.method == "for_each" && m.args.len() == 1 => match &m.args[0] {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let (pat, it) = (untype(&c.inputs[0]), &m.receiver);
                        let st = closure_stmts(c);
                        Some(parse_quote!(for #pat in #it { #(#st)*; }))
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some(x) = each {
                b.stmts[i] = Stmt::Expr(x, None);
            }
            if let Stmt::Expr(Expr::ForLoop(f), _) = &mut b.stmts[i] {
                while peel(f) {}
            }
            if let Some(f) = counted(&b.stmts[i..]) {
                b.stmts.splice(i..i + 2, [Stmt::Expr(f, None)]);
            }
            // `let sizes = a..b;`, used once
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(LocalInit { expr: x, diverge: None, .. }), .. }) = &b.stmts[i] {
                // a borrowing iterator: what it goes over cannot change before it is used
                fn lazily(e: &Expr) -> bool {
                    match e {
                        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => is_pure(&m.receiver),
                        Expr::MethodCall(m) if ["map", "filter", "chain", "rev", "enumerate", "skip", "take"].contains(&m.method.to_string().as_str()) => lazily(&m.receiver),
                        _ => false,
                    }
                }
                if let (true, None, None) = (matches!(&**x, Expr::Range(_)) || lazily(x), &p.by_ref, &p.mutability) {
                    let name = p.ident.to_string();
                    let mut n = Count { name: name.clone(), n: 0 };
                    b.stmts[i + 1..].iter().for_each(|s| syn::visit::Visit::visit_stmt(&mut n, s));
                    if n.n == 1 {
                        let mut to = NameTo { name, to: (**x).clone() };
                        b.stmts[i + 1..].iter_mut().for_each(|s| to.visit_stmt_mut(s));
                        b.stmts.remove(i);
                        continue;
                    }
                }
            }
            // `let [a, b]: [T; 2] = e;`
            let mut new: Option<Vec<Stmt>> = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                let (pat, ty) = match &l.pat {
                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    p => (p.clone(), None),
                };
                if let (Pat::Slice(sl), Some(init)) = (&pat, &l.init) {
                    let e = &init.expr;
                    let mut v: Vec<Stmt> = vec![match ty {
                        Some(t) => parse_quote!(let __arr: #t = #e;),
                        None => parse_quote!(let __arr = #e;),
                    }];
                    for (k, p) in sl.elems.iter().enumerate() {
                        if matches!(p, Pat::Rest(_)) {
                            die("rest in an array pattern");
                        }
                        v.push(parse_quote!(let #p = __arr[#k];));
                    }
                    new = Some(v);
                }
            }
            if let Some(v) = new {
                b.stmts.splice(i..i + 1, v);
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // outer loops are numbered before inner ones
        match e {
            Expr::While(w) if !self.keep.contains("while") => {
                let (_, k) = self.name("while");
                visit_mut::visit_expr_mut(self, &mut w.cond);
                self.visit_block_mut(&mut w.body);
                cont_mark(k, &w.label, &mut w.body);
                w.body.stmts.insert(0, Self::marker(k));
                return;
            }
            Expr::Loop(l) if !self.keep.contains("loop") => {
                let (n, k) = self.name("loop");
                // a value carried by `break` goes through a variable
                let mut bv = BreakValue { label: l.label.as_ref().map(|x| x.name.clone()), var: format_ident!("__v_{}", n), depth: 0, hit: false };
                bv.visit_block_mut(&mut l.body);
                self.visit_block_mut(&mut l.body);
                cont_mark(k, &l.label, &mut l.body);
                l.body.stmts.insert(0, Self::marker(k));
                if bv.hit {
                    let v = &bv.var;
                    let decl: Stmt = match self.modes.get(&n) {
                        Some(t) => {
                            let t: Type = syn::parse_str(t).unwrap_or_else(|e| die(format!("mode {n}: {e}")));
                            parse_quote!(let #v: #t;)
                        }
                        None => parse_quote!(let #v;),
                    };
                    *e = parse_quote!({ #decl #l #v });
                }
                return;
            }
            Expr::ForLoop(f) => {
                let (n, k) = self.name("for");
                self.visit_block_mut(&mut f.body);
                cont_mark(k, &f.label, &mut f.body);
                self.visit_expr_mut(&mut f.expr);
                let mode = self.modes.get(&n).cloned();
                // a sorted map with |key, value|
                if let (Some("map" | "map_inline"), Expr::MethodCall(m)) = (mode.as_deref(), &*f.expr) {
                    let base = &m.receiver;
                    let (i, hi, key) = (format_ident!("__i_{}", n), format_ident!("__n_{}", n), format_ident!("__k_{}", n));
                    let (a, b) = (format_ident!("__a_{}", n), format_ident!("__b_{}", n));
                    let name = m.method.to_string();
                    let bounds: Vec<Stmt> = match (name.as_str(), m.args.first()) {
                        ("range" | "range_mut", Some(Expr::Range(rg))) => {
                            let incl = matches!(rg.limits, RangeLimits::Closed(_));
                            let mut v: Vec<Stmt> = vec![];
                            if let Some(x) = &rg.start { v.push(parse_quote!(let #a = #x;)); }
                            if let Some(x) = &rg.end { v.push(parse_quote!(let #b = #x;)); }
                            if rg.start.is_some() && rg.end.is_some() { v.push(parse_quote!(__assert(#a <= #b);)); }
                            v.push(if rg.start.is_some() { parse_quote!(let mut #i: usize = #base.lower(#a);) } else { parse_quote!(let mut #i: usize = 0;) });
                            v.push(match (rg.end.is_some(), incl) {
                                (false, _) => parse_quote!(let #hi: usize = #base.len();),
                                (true, false) => parse_quote!(let #hi: usize = #base.lower(#b);),
                                (true, true) => parse_quote!(let #hi: usize = #base.upper(#b);),
                            });
                            v
                        }
                        ("iter" | "iter_mut" | "values" | "values_mut", None) => vec![parse_quote!(let mut #i: usize = 0;), parse_quote!(let #hi: usize = #base.len();)],
                        _ => die("mode map: not an iteration over a map"),
                    };
                    let get: Expr = if name.ends_with("_mut") { parse_quote!(#base.value_at_mut(#i)) } else { parse_quote!(#base.value_at(#i)) };
                    let bind: Vec<Stmt> = match &*f.pat {
                        Pat::Tuple(t) if t.elems.len() == 2 => {
                            let (kp, vp) = (&t.elems[0], &t.elems[1]);
                            vec![parse_quote!(let #key = #base.key_at(#i);), parse_quote!(let #kp = &#key;), parse_quote!(let #vp = #get;)]
                        }
                        p if name.starts_with("values") => vec![parse_quote!(let #p = #get;)],
                        _ => die("mode map: the pattern is not a pair"),
                    };
                    let mut bind = bind;
                    if mode.as_deref() == Some("map_inline") {
                        // the value is looked up at every use, instead of borrowing the map for the whole body
                        let Some(Stmt::Local(Local { pat: Pat::Ident(v), .. })) = bind.pop() else { die("mode map_inline: the value is not a name") };
                        let j = format_ident!("__j_{}", n);
                        bind.push(parse_quote!(let #j: usize = #i;));
                        let get: Expr = if name.ends_with("_mut") { parse_quote!((*#base.value_at_mut(#j))) } else { parse_quote!((*#base.value_at(#j))) };
                        NameTo { name: v.ident.to_string(), to: get }.visit_block_mut(&mut f.body);
                    }
                    let (body, lbl, mk) = (&f.body.stmts, &f.label, Self::marker(k));
                    *e = parse_quote!({ #(#bounds)* #lbl while #i < #hi { #mk #(#bind)* #i += 1; #(#body)* } });
                    return;
                }
                let (base, auto) = match iter_base(&f.expr) {
                    Some((b, a)) => (b, a.to_string()),
                    None => ((*f.expr).clone(), "keep".to_string()),
                };
                let mode = mode.unwrap_or(auto);
                let base = match base {
                    Expr::MethodCall(m) if mode == "index" && m.method == "into_iter" && m.args.is_empty() => *m.receiver,
                    b => b,
                };
                if let (true, Expr::Range(rg)) = (mode == "keep", &*f.expr) {
                    if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                        let i = format_ident!("__i_{}", n);
                        let m = format_ident!("__n_{}", n);
                        let (pat, body, lbl, mk) = (&f.pat, &f.body.stmts, &f.label, Self::marker(k));
                        *e = parse_quote!({ let #m = #b; let mut #i = #a; #lbl while #i < #m { #mk let #pat = #i; #i += 1; #(#body)* } });
                        return;
                    }
                }
                if mode == "keep" && !matches!(&*f.expr, Expr::Reference(_)) {
                    if let Some((len, get)) = seq_of(&f.expr) {
                        let i = format_ident!("__i_{}", n);
                        let j = format_ident!("__j_{}", n);
                        let (pat, body, lbl, mk) = (&f.pat, &f.body.stmts, &f.label, Self::marker(k));
                        let item = get(parse_quote!(#j));
                        *e = parse_quote!({ let mut #i: usize = 0; #lbl while #i < #len { #mk let #j: usize = #i; #i += 1; let #pat = #item; #(#body)* } });
                        return;
                    }
                }
                let pat = &f.pat;
                let body = &f.body.stmts;
                let i = format_ident!("__i_{}", n);
                let lbl = &f.label;
                let mk = Self::marker(k);
                // a value that is consumed
                if mode == "keep" && self.modes.get(&n).is_none() {
                    let from = match &*f.expr {
                        Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => Some((*m.receiver).clone()),
                        Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) => Some((*f.expr).clone()),
                        _ => None,
                    };
                    if let Some(from) = from {
                        let d = format_ident!("__d_{}", n);
                        self.sources.insert(n, d.to_string());
                        *e = parse_quote!({ let mut #d = #from; #lbl while #d.len() > 0 { #mk let #pat = #d.remove(0); #(#body)* } });
                        return;
                    }
                }
                self.sources.insert(n.clone(), if mode == "take" { format!("__d_{n}") } else { ts(&base) });
                *e = match mode.as_str() {
                    "index" => parse_quote!({ let mut #i: usize = 0; #lbl while #i < #base.len() { #mk let #pat = &#base[#i]; #i += 1; #(#body)* } }),
                    "index_mut" => parse_quote!({ let mut #i: usize = 0; #lbl while #i < #base.len() { #mk let #pat = &mut #base[#i]; #i += 1; #(#body)* } }),
                    "drain" => parse_quote!({ #lbl while #base.len() > 0 { #mk let #pat = #base.remove(0); #(#body)* } }),
                    // emptied however the loop ends
                    "take" => {
                        let d = format_ident!("__d_{}", n);
                        parse_quote!({ let mut #d = __drain_from(&mut #base, 0); #lbl while #d.len() > 0 { #mk let #pat = #d.remove(0); #(#body)* } })
                    }
                    "consume" => parse_quote!({ #lbl while #base.len() > 0 { #mk let #pat = #base.remove(0); #(#body)* } }),
                    "keep" => {
                        f.body.stmts.insert(0, mk);
                        return;
                    }
                    m => die(format!("unknown loop mode {m}")),
                };
                return;
            }
            Expr::MethodCall(m) if (m.method == "any" || m.method == "all") && m.args.len() == 1 => {
                let shared = match &*m.receiver {
                    Expr::MethodCall(r) if r.method == "into_iter" && SHARED.with(|s| s.borrow().contains(&ts(&r.receiver))) => Some(((*r.receiver).clone(), "index")),
                    _ => None,
                };
                if let (Some((base, "index")), Expr::Closure(c)) = (iter_base(&m.receiver).or(shared), &m.args[0]) {
                    let kind = m.method.to_string();
                    let (n, k) = self.name(&kind);
                    let pat = untype(&c.inputs[0]);
                    let mut cb = Block { brace_token: Default::default(), stmts: closure_stmts(c) };
                    self.visit_block_mut(&mut cb);
                    let st = &cb.stmts;
                    let i = format_ident!("__i_{}", n);
                    let r = format_ident!("__r_{}", n);
                    let mk = Self::marker(k);
                    let init = kind == "all";
                    let test: Expr = if init { parse_quote!(!{ #(#st)* }) } else { parse_quote!({ #(#st)* }) };
                    let fin = !init;
                    let go: Expr = if init { parse_quote!(#r) } else { parse_quote!(!#r) };
                    *e = parse_quote!({ let mut #i: usize = 0; let mut #r: bool = #init; while #go && #i < #base.len() { #mk let #pat = &#base[#i]; #i += 1; let __t: bool = #test; if __t { #r = #fin; } } #r });
                    return;
                }
            }
            // enumerate().find(): the first index, then the item
            Expr::MethodCall(m) if (m.method == "find" || m.method == "position") && m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(_)) => {
                if let (Some((len, get)), Expr::Closure(c)) = (seq_of(&m.receiver), &m.args[0]) {
                    let (n, k) = self.name("find");
                    let mut cb = Block { brace_token: Default::default(), stmts: closure_stmts(c) };
                    self.visit_block_mut(&mut cb);
                    let st = &cb.stmts;
                    let (i, j, r, mk) = (format_ident!("__i_{}", n), format_ident!("__j_{}", n), format_ident!("__r_{}", n), Self::marker(k));
                    let pat = untype(&c.inputs[0]);
                    let probe = get(parse_quote!(#j));
                    // the predicate sees a shared reference
                    let probe: Expr = syn::parse_str(&ts(&probe).replace("& mut ", "& ")).unwrap();
                    if m.method == "position" {
                        *e = parse_quote!({ let mut #i: usize = 0; let mut #r: Option<usize> = None; while #r.is_none() && #i < #len { #mk let #j: usize = #i; #i += 1; let #pat = #probe; if { #(#st)* } { #r = Some(#j); } } #r });
                        return;
                    }
                    let item = get(parse_quote!(__k));
                    *e = parse_quote!(match { let mut #i: usize = 0; let mut #r: Option<usize> = None; while #r.is_none() && #i < #len { #mk let #j: usize = #i; #i += 1; let #pat = #probe; if { #(#st)* } { #r = Some(#j); } } #r } { Some(__k) => Some(#item), None => None });
                    return;
                }
            }
            // drain(n..).map(f).collect::<Result<..>>(): stops at the first error, the rest is dropped
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => {
                if let Expr::MethodCall(mm) = &*m.receiver {
                    if let (true, Some(Expr::Closure(c)), Expr::MethodCall(d)) = (mm.method == "map", mm.args.first(), &*mm.receiver) {
                        let turbo = m.turbofish.as_ref().map(|t| ts(t)).unwrap_or_default();
                        if d.method == "drain" && d.args.len() == 1 && turbo.contains("Result") {
                            let Expr::Range(rg) = &d.args[0] else { die("drain of something else than a range") };
                            if rg.end.is_some() {
                                die("drain with an end");
                            }
                            let from: Expr = rg.start.as_deref().cloned().unwrap_or(parse_quote!(0));
                            let base = &d.receiver;
                            let st0 = match &*c.body {
                                Expr::Block(b) => b.block.stmts.clone(),
                                e => vec![Stmt::Expr(e.clone(), None)],
                            };
                            let st0 = untry(&deret(&st0), false).unwrap_or_else(|| die("`?` in an unsupported position of a closure"));
                            let (n, k) = self.name("collect");
                            let mut cb = Block { brace_token: Default::default(), stmts: st0 };
                            self.visit_block_mut(&mut cb);
                            let st = &cb.stmts;
                            let pat = untype(&c.inputs[0]);
                            let (dd, o, er, mk) = (format_ident!("__d_{}", n), format_ident!("__o_{}", n), format_ident!("__e_{}", n), Self::marker(k));
                            let ety: Type = self.modes.get(&n).map(|t| syn::parse_str(t).unwrap()).unwrap_or(parse_quote!(_));
                            *e = parse_quote!({ let mut #dd = __drain_from(&mut #base, #from); let mut #o: Vec<#ety> = Vec::new(); let mut #er: Result<(), Error> = Ok(()); while #er.is_ok() && #dd.len() > 0 { #mk let #pat = #dd.remove(0); match { #(#st)* } { Ok(__x) => { #o.push(__x); } Err(__x) => { #er = Err(__x); } } } match #er { Ok(_) => Ok(#o), Err(__x) => Err(__x) } });
                            return;
                        }
                    }
                }
            }
            Expr::MethodCall(m) if (m.method == "retain" || m.method == "retain_mut") && m.args.len() == 1 && !self.keep.contains("retain") => {
                if let Expr::Closure(c) = &m.args[0] {
                    let (n, k) = self.name("retain");
                    let mode = self.modes.get(&n).cloned().unwrap_or("vec".into());
                    let base = &m.receiver;
                    let i = format_ident!("__i_{}", n);
                    let kp = format_ident!("__keep_{}", n);
                    let mk = Self::marker(k);
                    let mut cb = Block { brace_token: Default::default(), stmts: closure_stmts(c) };
                    self.visit_block_mut(&mut cb);
                    let st = &cb.stmts;
                    if mode == "map" {
                        // BTreeMap::retain with |key, value|
                        let (kpat, vpat) = (untype(&c.inputs[0]), untype(&c.inputs[1]));
                        *e = parse_quote!({ let mut #i: usize = 0; while #i < #base.len() { #mk let #kp: bool = { let __k = #base.key_at(#i); let #kpat = &__k; let #vpat = #base.value_at_mut(#i); #(#st)* }; if #kp { #i += 1; } else { #base.remove_at(#i); } } });
                        return;
                    }
                    let pat = untype(&c.inputs[0]);
                    let get: Expr = if m.method == "retain" { parse_quote!(&#base[#i]) } else { parse_quote!(&mut #base[#i]) };
                    // a removed item is dropped
                    let gone: Stmt = if mode == "drop" { parse_quote!(drop_removed(#base.remove(#i));) } else { parse_quote!(#base.remove(#i);) };
                    *e = parse_quote!({ let mut #i: usize = 0; while #i < #base.len() { #mk let #kp: bool = { let #pat = #get; #(#st)* }; if #kp { #i += 1; } else { #gone } } });
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = combinator(e) {
            *e = x;
            return;
        }
        match e {
            Expr::MethodCall(m) if ((m.method == "or_default" && m.args.is_empty()) || (["or_insert", "or_insert_with"].contains(&m.method.to_string().as_str()) && m.args.len() == 1 && ["Vec::new", "Vec::new()", "vec![]", "Vec::default", "Default::default", "Default::default()", "||Vec::new()"].contains(&ts(&m.args[0]).replace(' ', "").as_str()))) && matches!(&*m.receiver, Expr::MethodCall(x) if x.method == "entry" && x.args.len() == 1) => {
                let Expr::MethodCall(x) = &*m.receiver else { unreachable!() };
                let (b, k) = (&x.receiver, &x.args[0]);
                *e = parse_quote!(#b.entry_or_default(#k));
            }
            // a closure that is called
            Expr::Call(c) if c.args.is_empty() && self.modes.get("call").map_or(false, |m| m == "run") && matches!(&*c.func, Expr::Path(p) if p.path.get_ident().map_or(false, |i| i.to_string().starts_with(char::is_lowercase))) => {
                let f = &c.func;
                *e = parse_quote!(run(#f));
            }
            // the place is made before the arguments are evaluated
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::MethodCall(x) if x.method == "entry_or_default") => {
                let (r, f, a) = (&m.receiver, &m.method, &m.args);
                *e = parse_quote!({ let __slot = #r; __slot.#f(#a) });
            }
            // the old value of a field that has a destructor is dropped before the new one is stored
            Expr::Assign(a) if matches!((&*a.left, self.modes.get("drop")), (Expr::Field(f), Some(d)) if matches!(&f.member, Member::Named(n) if d.split(',').any(|x| n == x.trim()))) => {
                let (l, r) = (&a.left, &a.right);
                *e = parse_quote!({ let __new = #r; #l.drop(); #l = __new; });
            }
            Expr::MethodCall(m) if m.method == "as_ptr" && matches!(&*m.receiver, Expr::Lit(l) if matches!(l.lit, Lit::CStr(_))) => {
                *e = parse_quote!(__cstr());
            }
            // a pointer to a variable is passed as a reference
            Expr::Cast(c) if matches!(&*c.expr, Expr::Reference(_)) && (matches!(&*c.ty, Type::Infer(_)) || matches!(&*c.ty, Type::Ptr(p) if matches!(&*p.elem, Type::Infer(_)))) => {
                *e = (*c.expr).clone();
            }
            Expr::Cast(c) => {
                // raw pointers are stand-ins: a cast names the type it reads or writes
                if let (Type::Infer(_), Expr::MethodCall(m)) = (&*c.ty, &*c.expr) {
                    if ["as_mut_ptr", "as_ptr", "sub", "add", "offset", "cast"].contains(&m.method.to_string().as_str()) {
                        *e = (*c.expr).clone();
                    }
                } else if let (Type::Infer(_), Expr::Call(f)) = (&*c.ty, &*c.expr) {
                    let n = ts(&f.func).replace(' ', "");
                    if n.starts_with("__cast") {
                        *e = (*c.expr).clone();
                    } else if n.ends_with("Box::into_raw") {
                        let x = &c.expr;
                        *e = parse_quote!(__cast::<_, _>(#x));
                    }
                } else if let Type::Ptr(p) = &*c.ty {
                    let (t, x) = (&p.elem, &c.expr);
                    *e = parse_quote!(__cast::<#t, _>(#x));
                }
            }
            // what a raw pointer points to
            Expr::Reference(r) if points_to(&r.expr).is_some() => {
                let x = points_to(&r.expr).unwrap();
                *e = if r.mutability.is_some() { parse_quote!(__deref_mut(#x)) } else { parse_quote!(__deref(#x)) };
            }
            // output parameters are stand-ins with a method that writes
            Expr::Assign(a) if matches!((&*a.left, self.modes.get("out")), (Expr::Unary(u), Some(d)) if matches!(u.op, UnOp::Deref(_)) && d.split(',').any(|x| ts(&u.expr) == x.trim())) => {
                let Expr::Unary(u) = &*a.left else { unreachable!() };
                let (l, r) = (&u.expr, &a.right);
                *e = parse_quote!(#l.write(#r));
            }
            Expr::Range(r) if self.modes.get("range").map_or(false, |m| m == "call") => {
                let f = format_ident!("__range_{}{}{}", if r.start.is_some() { "from" } else { "" }, match r.limits { RangeLimits::HalfOpen(_) => "_", RangeLimits::Closed(_) => "_incl_" }, if r.end.is_some() { "to" } else { "" });
                let v: Vec<&Expr> = r.start.iter().chain(r.end.iter()).map(|b| &**b).collect();
                *e = parse_quote!(#f(#(#v),*));
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) && self.modes.get("not").map_or(false, |m| m == "method") => {
                let x = &u.expr;
                *e = parse_quote!((#x).not());
            }
            // a closure that is kept: its body is checked once, against a log of its own
            Expr::MethodCall(m) if self.modes.get("later").map_or(false, |d| d.split(',').any(|x| m.method == x.trim())) => {
                for a in m.args.iter_mut() {
                    if let Expr::Closure(c) = a {
                        if !c.inputs.is_empty() || c.capture.is_none() {
                            die("mode later: the closure takes arguments or borrows");
                        }
                        let mut b = Block { brace_token: Default::default(), stmts: closure_stmts(c) };
                        LaterCalls.visit_block_mut(&mut b);
                        if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                            *semi = Some(Default::default());
                        }
                        let st = &b.stmts;
                        *a = parse_quote!({ let mut __later = Later::new(); #(#st)* __later });
                    }
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    // `&x` in a pattern
                    let mut r = RefPats(vec![]);
                    r.visit_pat_mut(&mut a.pat);
                    if !r.0.is_empty() {
                        let st: Vec<Stmt> = r.0.iter().map(|(n, x)| parse_quote!(let #x = *#n;)).collect();
                        let b = &a.body;
                        if a.guard.is_some() {
                            die("guard with a reference pattern");
                        }
                        a.body = parse_quote!({ #(#st)* #b });
                    }
                }
                if m.arms.iter().any(|a| is_uuid_pat(&a.pat).is_some()) {
                    // constants in patterns become comparisons, in order
                    let on = &m.expr;
                    let mut acc: Option<Expr> = None;
                    for a in m.arms.iter().rev() {
                        let body = &a.body;
                        acc = Some(match is_uuid_pat(&a.pat) {
                            Some(p) => {
                                if a.guard.is_some() {
                                    die("guard on a UUID arm");
                                }
                                let f = uuid_fn(&p);
                                let els = acc.unwrap_or(parse_quote!({ __unreachable() }));
                                let els: Expr = match els {
                                    e @ (Expr::Block(_) | Expr::If(_)) => e,
                                    e => parse_quote!({ #e }),
                                };
                                parse_quote!(if bytes_eq(&#on, &#f()) { #body } else #els)
                            }
                            None if matches!(a.pat, Pat::Wild(_)) => parse_quote!({ #body }),
                            None => die(format!("unsupported arm {}", ts(&a.pat))),
                        });
                    }
                    *e = acc.unwrap();
                }
            }
            // `?` that converts the error
            Expr::Try(t) if self.modes.get("try").map_or(false, |m| m == "from") => {
                let x = &t.expr;
                *e = parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(From::from(__e)) });
            }
            Expr::Try(t) if self.modes.get("try").map_or(false, |m| m == "option") => {
                let x = &t.expr;
                *e = parse_quote!(match #x { Some(__v) => __v, None => return None });
            }
            // a pointer into the rest of an array
            Expr::MethodCall(m) if m.method == "as_mut_ptr" && self.modes.get("tail").map_or(false, |m| m == "array") => {
                if let Expr::Index(i) = &*m.receiver {
                    if let Expr::Range(syn::ExprRange { start: Some(a), end: None, .. }) = &*i.index {
                        let b = &i.expr;
                        *e = parse_quote!(array_tail(&mut #b, #a));
                    }
                }
            }
            Expr::MethodCall(m) if m.method == "elapsed" && m.args.is_empty() => {
                let r = &m.receiver;
                *e = parse_quote!(Instant::now().saturating_duration_since(#r));
            }
            Expr::Path(p) if matches!(ts(p).replace(' ', "").as_str(), "Duration::ZERO" | "std::time::Duration::ZERO") => *e = parse_quote!(Duration::from_secs(0)),
            Expr::Path(p) if matches!(ts(p).replace(' ', "").as_str(), "Duration::MAX" | "std::time::Duration::MAX") => *e = parse_quote!(__duration_max()),
            // assignments with `|`, `&` and `^` are for booleans too
            Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitXorAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = match b.op {
                    BinOp::BitOrAssign(_) => parse_quote!(#l = (#l) | (#r)),
                    BinOp::BitAndAssign(_) => parse_quote!(#l = (#l) & (#r)),
                    _ => parse_quote!(#l = (#l) ^ (#r)),
                };
            }
            Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "UUID") => {
                let f = uuid_fn(p);
                *e = parse_quote!(#f());
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let is = |x: &Expr| ts(x).contains("uuid_of_");
                if is(&b.left) || is(&b.right) {
                    let (l, r) = (&b.left, &b.right);
                    *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(bytes_eq(&#l, &#r)) } else { parse_quote!(!bytes_eq(&#l, &#r)) };
                }
            }
            _ => {}
        }
    }
}

struct BreakValue {
    label: Option<Lifetime>,
    var: Ident,
    depth: u32,
    hit: bool,
}
impl VisitMut for BreakValue {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Break(b) = e {
            let mine = match (&b.label, &self.label) {
                (Some(a), Some(l)) => a == l,
                (None, _) => self.depth == 0,
                _ => false,
            };
            if let (true, Some(x)) = (mine, b.expr.take()) {
                let (v, l) = (&self.var, &b.label);
                self.hit = true;
                *e = parse_quote!({ #v = #x; break #l; });
            }
        }
    }
}
struct RefPats(Vec<(Ident, Ident)>);
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                let n = format_ident!("__ref_{}", i.ident);
                self.0.push((n.clone(), i.ident.clone()));
                *p = parse_quote!(#n);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
fn on_iterator(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ["iter", "iter_mut", "into_iter", "drain", "chain", "zip", "chars", "bytes", "enumerate", "rev", "skip", "take_while", "range", "range_mut", "sample_iter", "keys", "values"].contains(&n.as_str()) || on_iterator(&m.receiver)
        }
        Expr::Paren(p) => on_iterator(&p.expr),
        _ => false,
    }
}
/// `Option`/`Result` combinators with a closure become the match they stand for
fn combinator(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    if on_iterator(&m.receiver) {
        return None;
    }
    let recv = &m.receiver;
    let apply = |f: &Expr, arg: &str| -> Option<Expr> {
        let a = format_ident!("{}", arg);
        match f {
            Expr::Closure(c) => {
                let b = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((*c.body).clone(), None)] };
                let (_, tr) = block_has_return_or_try(&b);
                if tr {
                    return None;
                }
                let st = closure_stmts(c);
                match c.inputs.len() {
                    0 => Some(parse_quote!({ #(#st)* })),
                    1 => {
                        let p = untype(&c.inputs[0]);
                        if let Pat::Reference(r) = &p {
                            let q = &r.pat;
                            return Some(parse_quote!({ let #q = *#a; #(#st)* }));
                        }
                        Some(parse_quote!({ let #p = #a; #(#st)* }))
                    }
                    _ => None,
                }
            }
            Expr::Path(p) => Some(parse_quote!(#p(#a))),
            _ => None,
        }
    };
    let res = gives_result(recv);
    match (m.method.to_string().as_str(), m.args.len()) {
        ("map", 1) if res => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Ok(__v) => Ok(#b), Err(__v) => Err(__v) }))
        }
        ("and_then", 1) if res => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Ok(__v) => #b, Err(__v) => Err(__v) }))
        }
        ("or_else", 1) if res => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(__v) => #b }))
        }
        ("or", 1) if res => {
            let b = &m.args[0];
            Some(parse_quote!({ let __or = #b; match #recv { Ok(__v) => Ok(__v), Err(_) => __or } }))
        }
        ("map_or", 2) if res => {
            let b = apply(&m.args[1], "__v")?;
            let d = &m.args[0];
            Some(parse_quote!(match #recv { Ok(__v) => #b, Err(_) => #d }))
        }
        ("map_or_else", 2) => {
            let (d, b) = (apply(&m.args[0], "__v")?, apply(&m.args[1], "__v")?);
            Some(if res { parse_quote!(match #recv { Ok(__v) => #b, Err(__v) => #d }) } else { parse_quote!(match #recv { Some(__v) => #b, None => #d }) })
        }
        ("unwrap_or_else", 1) if res => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Ok(__v) => __v, Err(__v) => #b }))
        }
        ("or_else", 1) => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Some(__v) => Some(__v), None => #b }))
        }
        ("filter", 1) => {
            let Expr::Closure(c) = &m.args[0] else { return None };
            let p = untype(c.inputs.first()?);
            let b = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((*c.body).clone(), None)] };
            if block_has_return_or_try(&b).1 {
                return None;
            }
            let st = closure_stmts(c);
            Some(match &p {
                Pat::Reference(r) => { let q = &r.pat; parse_quote!(match #recv { Some(__v) => { if { let #q = __v; #(#st)* } { Some(__v) } else { None } } None => None }) }
                p => parse_quote!(match #recv { Some(__v) => { if { let #p = &__v; #(#st)* } { Some(__v) } else { None } } None => None }),
            })
        }
        ("map", 1) => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Some(__v) => Some(#b), None => None }))
        }
        ("and_then", 1) => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Some(__v) => #b, None => None }))
        }
        ("map_or", 2) => {
            let b = apply(&m.args[1], "__v")?;
            let d = &m.args[0];
            Some(parse_quote!(match #recv { Some(__v) => #b, None => #d }))
        }
        ("unwrap_or_else", 1) if matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Some(__v) => __v, None => #b }))
        }
        ("map_err", 1) => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(__v) => Err(#b) }))
        }
        ("ok_or_else", 1) => {
            let b = apply(&m.args[0], "__v")?;
            Some(parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#b) }))
        }
        _ => None,
    }
}

/// the pointer of `*(x as *mut T)`
fn points_to(e: &Expr) -> Option<Expr> {
    let Expr::Unary(u) = e else { return None };
    let mut x = &*u.expr;
    while let Expr::Paren(p) = x {
        x = &p.expr;
    }
    (matches!(u.op, UnOp::Deref(_)) && matches!(x, Expr::Call(c) if ts(&c.func).starts_with("__cast"))).then(|| x.clone())
}
/// calls of captured functions inside a closure that runs later
struct LaterCalls;
impl VisitMut for LaterCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.get_ident().is_some()) {
                let (f, a) = (&c.func, c.args.iter());
                *e = parse_quote!(#f.call(#(#a,)* &mut __later));
            }
        }
    }
}

struct NameTo {
    name: String,
    to: Expr,
}
impl VisitMut for NameTo {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.name)) {
            *e = self.to.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// a place for proof text before every call of a function
struct At {
    names: Vec<String>,
}
impl VisitMut for At {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let name = match e {
            Expr::MethodCall(m) => m.method.to_string(),
            Expr::Call(c) => ts(&c.func).replace(' ', ""),
            _ => return,
        };
        if let Some(k) = self.names.iter().position(|n| *n == name) {
            let x = e.clone();
            *e = parse_quote!({ __verif_at__(#k); #x });
        }
    }
}

/// a place for proof text at every exit of a function
struct Exits(Type);
fn exit(e: &Expr, t: &Type) -> Vec<Stmt> {
    vec![parse_quote!(let __r: #t = #e;), parse_quote!(__verif_exit__();)]
}
impl VisitMut for Exits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let st = match &r.expr {
                Some(x) => exit(x, &self.0),
                None => vec![parse_quote!(__verif_exit__();)],
            };
            let back: Stmt = if r.expr.is_some() { parse_quote!(return __r;) } else { parse_quote!(return;) };
            *e = parse_quote!({ #(#st)* #back });
        }
    }
}

fn ghost_args(g: &str) -> Vec<Expr> {
    syn::parse::Parser::parse_str(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, g).unwrap_or_else(|e| die(format!("ghost `{g}`: {e}"))).into_iter().collect()
}
struct Ghost<'a> {
    names: Vec<(&'a str, &'a str)>,
}
impl VisitMut for Ghost<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                for (a, g) in &self.names {
                    if *a == n {
                        m.args.extend(ghost_args(g));
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    for (a, g) in &self.names {
                        if *a == n || *a == full {
                            c.args.extend(ghost_args(g));
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
/// `continue` of the extracted loop body ends the step
struct ContinueToReturn {
    depth: u32,
}
impl VisitMut for ContinueToReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Continue(c) if c.label.is_none() && self.depth == 0 => {
                *e = parse_quote!(return);
                return;
            }
            Expr::Break(_) if self.depth == 0 => die("the step breaks out of its loop"),
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// proof text goes before every `continue` of a loop as it goes at the end of its body
struct ContMark {
    k: usize,
    label: Option<String>,
    depth: u32,
}
impl VisitMut for ContMark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Continue(c) if (c.label.is_none() && self.depth == 0) || (c.label.is_some() && c.label.as_ref().map(|l| l.ident.to_string()) == self.label) => {
                let (k, c) = (self.k, c.clone());
                *e = parse_quote!({ __verif_cont__(#k); #c });
                return;
            }
            Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn cont_mark(k: usize, label: &Option<Label>, b: &mut Block) {
    ContMark { k, label: label.as_ref().map(|l| l.name.ident.to_string()), depth: 0 }.visit_block_mut(b);
}

struct FirstLoop(Option<Block>);
impl<'a> syn::visit::Visit<'a> for FirstLoop {
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        if self.0.is_none() {
            self.0 = Some(l.body.clone());
        }
    }
}

fn find<'a>(items: &'a [Item], item: &str) -> Vec<(&'a Signature, &'a Block, Option<String>)> {
    let mut out = vec![];
    let (ty, name, tr) = match item.rsplit_once("::") {
        Some((t, n)) => match t.split_once(" as ") {
            Some((a, b)) => (Some(a), n, Some(b)),
            None => (Some(t), n, None),
        },
        None => (None, item, None),
    };
    for i in items {
        match i {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name && enabled(&f.attrs) => out.push((&f.sig, &*f.block, None)),
            Item::Impl(im) if ty.is_some() && enabled(&im.attrs) => {
                let this = match &*im.self_ty {
                    Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                    t => ts(t),
                };
                if Some(this.as_str()) != ty {
                    continue;
                }
                let t = im.trait_.as_ref().map(|t| ts(&t.1).replace(' ', ""));
                let matches = match (tr, &t) {
                    (None, None) => true,
                    (Some(a), Some(b)) => b == a || b.split('<').next() == Some(a) || b.rsplit("::").next() == Some(a),
                    _ => false,
                };
                if !matches {
                    continue;
                }
                for f in &im.items {
                    if let ImplItem::Fn(f) = f {
                        if f.sig.ident == name && enabled(&f.attrs) {
                            out.push((&f.sig, &f.block, Some(this.clone())));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}

/// parameters, or what they were bound to, that nothing takes over: they are dropped when the function ends
fn owned_at_end(params: &[String], b: &Block) -> Vec<Ident> {
    let mut out = vec![];
    for p in params {
        let mut name = p.clone();
        for s in &b.stmts {
            if let Stmt::Local(l) = s {
                let bound = match &l.pat {
                    Pat::TupleStruct(t) if p == "self" && t.elems.len() == 1 => &t.elems[0],
                    p => p,
                };
                if let (Pat::Ident(i), Some(init)) = (bound, &l.init) {
                    if ts(&init.expr) == name || p == "self" && ts(&init.expr).starts_with(&format!("{name} .")) {
                        name = i.ident.to_string();
                    }
                }
            }
        }
        struct Moves<'a>(&'a str, bool, bool);
        impl<'ast> syn::visit::Visit<'ast> for Moves<'_> {
            fn visit_expr_call(&mut self, c: &'ast ExprCall) {
                self.1 |= c.args.iter().any(|a| ts(a) == self.0 || self.2 && ts(a).starts_with(&format!("{} .", self.0)));
                syn::visit::visit_expr_call(self, c);
            }
            fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
                self.1 |= c.args.iter().any(|a| ts(a) == self.0) || (ts(&c.receiver) == self.0 && c.method == "into")
                    || (self.2 && (ts(&c.receiver) == self.0 || ts(&c.receiver).starts_with(&format!("{} .", self.0))) && c.method.to_string().starts_with("into"));
                syn::visit::visit_expr_method_call(self, c);
            }
        }
        let mut m = Moves(&name, false, p == "self");
        syn::visit::Visit::visit_block(&mut m, b);
        if !m.1 {
            out.push(format_ident!("{}", name));
        }
    }
    out
}

/// macros of the file that make items
pub fn expand_items(f: &mut File) {
    let mut rules: HashMap<String, Rules> = HashMap::new();
    let mut items = vec![];
    // macros of expressions are not ours
    let used: Vec<String> = f.items.iter().filter_map(|i| match i {
        Item::Macro(m) if m.ident.is_none() => m.mac.path.get_ident().map(|x| x.to_string()),
        _ => None,
    }).collect();
    for i in f.items.drain(..) {
        if let Item::Macro(m) = &i {
            match (&m.ident, m.mac.path.get_ident().map(|x| x.to_string())) {
                (Some(n), _) if used.contains(&n.to_string()) => {
                    rules.insert(n.to_string(), parse_rules(m.mac.tokens.clone()));
                }
                (None, Some(n)) if rules.contains_key(&n) => {
                    if let Some(v) = expand_item(&rules[&n], m.mac.tokens.clone()) {
                        items.extend(v);
                        continue;
                    }
                }
                _ => {}
            }
        }
        items.push(i);
    }
    f.items = items;
}
/// arguments are separated by the tokens between the macro's variables: `,` or `=>`
fn expand_item(rules: &Rules, t: proc_macro2::TokenStream) -> Option<Vec<Item>> {
    use proc_macro2::TokenTree::*;
    let v: Vec<_> = t.into_iter().collect();
    let mut args: Vec<proc_macro2::TokenStream> = vec![];
    let mut cur: Vec<proc_macro2::TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match (&v[i], v.get(i + 1)) {
            (Punct(a), Some(Punct(b))) if a.as_char() == '=' && b.as_char() == '>' => {
                args.push(cur.drain(..).collect());
                i += 2;
            }
            (Punct(a), _) if a.as_char() == ',' => {
                args.push(cur.drain(..).collect());
                i += 1;
            }
            (x, _) => {
                cur.push(x.clone());
                i += 1;
            }
        }
    }
    if !cur.is_empty() {
        args.push(cur.into_iter().collect());
    }
    let (names, body) = rules.iter().find(|r| r.0.len() == args.len())?;
    let map = names.iter().cloned().zip(args).collect();
    let text = subst_tokens(body.clone(), &map).to_string();
    syn::parse_str::<File>(&text).ok().map(|f| f.items)
}

/// the value of a constant, where it is used
fn const_value(ty: &Type, e: &Expr) -> Expr {
    match ts(ty).as_str() {
        "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "isize" => parse_quote!(((#e) as #ty)),
        _ => parse_quote!((#e)),
    }
}
/// the signature alone
pub fn signature(file: &File, dir: &Dir) -> String {
    let item = dir.item.split('@').next().unwrap();
    let found = find(&file.items, item);
    if found.len() != 1 {
        die(format!("{} in {}: found {} times", dir.item, dir.file, found.len()));
    }
    ts(found[0].0)
}
pub fn extract(file: &File, dir: &Dir, known: &HashSet<String>) -> Extracted {
    let (item, part) = match dir.item.split_once('@') {
        Some((a, b)) => (a, Some(b)),
        None => (dir.item.as_str(), None),
    };
    let found = find(&file.items, item);
    if found.len() != 1 {
        die(format!("{} in {}: found {} times", dir.item, dir.file, found.len()));
    }
    let (sig, block, ty) = &found[0];
    let mut block = (*block).clone();
    let line = sig.ident.span().start().line;
    let mut free_sig = false;
    if part == Some("loop") {
        let mut f = FirstLoop(None);
        syn::visit::Visit::visit_block(&mut f, &block);
        block = f.0.unwrap_or_else(|| die(format!("{}: no loop", dir.item)));
        ContinueToReturn { depth: 0 }.visit_block_mut(&mut block);
        free_sig = true;
    }
    let mut dropped = vec![];
    LocalMacros { rules: Default::default() }.visit_block_mut(&mut block);
    Clean { dropped: &mut dropped }.visit_block_mut(&mut block);

    // helpers of the same type or file that have no contract
    let mut methods = HashMap::new();
    let mut fns = HashMap::new();
    let (mut others, mut consts, mut twice) = (HashMap::new(), HashMap::new(), HashSet::new());
    let known_const = |i: &Ident| known.contains(&format!("const {i}"));
    for i in &file.items {
        match i {
            Item::Fn(f) if enabled(&f.attrs) => {
                fns.insert(f.sig.ident.to_string(), (f.sig.clone(), (*f.block).clone()));
            }
            Item::Const(c) if enabled(&c.attrs) => {
                if !known_const(&c.ident) {
                    consts.insert(c.ident.to_string(), const_value(&c.ty, &c.expr));
                }
            }
            Item::Impl(im) if im.trait_.is_none() && enabled(&im.attrs) => {
                let this = match &*im.self_ty {
                    Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
                    t => ts(t),
                };
                for f in &im.items {
                    match f {
                        ImplItem::Fn(f) if enabled(&f.attrs) => {
                            let n = f.sig.ident.to_string();
                            let v = (f.sig.clone(), f.block.clone());
                            if Some(&this) == ty.as_ref() {
                                methods.insert(n, v);
                            } else if others.insert(n.clone(), v).is_some() {
                                twice.insert(n);
                            }
                        }
                        ImplItem::Const(c) if Some(&this) == ty.as_ref() && !known_const(&c.ident) => {
                            consts.insert(format!("Self::{}", c.ident), const_value(&c.ty, &c.expr));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    others.retain(|n, _| !twice.contains(n) && !methods.contains_key(n));
    let mut inl = Inline { known, methods, fns, others, consts, inlined: vec![], depth: 0, changed: true };
    while inl.changed {
        inl.changed = false;
        if !free_sig {
            let out = ts(&sig.output);
            inl.tail_of(&mut block, &out);
            ReturnTails(&mut inl, out).visit_block_mut(&mut block);
        }
        inl.visit_block_mut(&mut block);
    }
    // `mode early: a ==> b`: on the text as it is before loops and closures are taken apart
    for (_, text) in dir.all("mode").filter(|m| m.0 == "early") {
        let Some((from, to)) = text.split_once("==>") else { die("mode early needs ==>") };
        if let Some(b) = token_replace(&ts(&block), from.trim(), to.trim()) {
            block = syn::parse_str(&b).unwrap_or_else(|e| die(format!("{}: mode early: {e}", dir.item)));
        }
    }
    SHARED.with(|s| *s.borrow_mut() = dir.all("mode").filter(|m| m.0 == "shared").flat_map(|m| m.1.split(',')).map(|x| x.trim().to_string()).collect());
    if let Some((_, f)) = dir.all("mode").find(|m| m.0 == "eq") {
        EqFn(format_ident!("{}", f.trim())).visit_block_mut(&mut block);
    }
    let mut bools = Bools::default();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            bools.note(&Pat::Type(PatType { attrs: vec![], pat: t.pat.clone(), colon_token: t.colon_token, ty: t.ty.clone() }), None);
        }
    }
    bools.visit_block_mut(&mut block);
    let mut d = Desugar {
        loops: vec![],
        sources: Default::default(),
        counts: Default::default(),
        keep: dir.all("keep").map(|k| k.0.to_string()).collect(),
        modes: dir.all("mode").map(|(a, b)| (a.to_string(), b.to_string())).collect(),
    };
    // an iterator that is returned is the sequence of its items
    if let Some(t) = d.modes.get("lazy") {
        let t: Type = syn::parse_str(t.trim()).unwrap_or_else(|e| die(format!("mode lazy: {e}")));
        if let Some(Stmt::Expr(_, None)) = block.stmts.last() {
            let Some(Stmt::Expr(e, None)) = block.stmts.pop() else { unreachable!() };
            let st: [Stmt; 2] = [parse_quote!(let mut __lazy: Vec<#t> = Vec::new();), parse_quote!(for __x in #e { __lazy.push(__x); })];
            block.stmts.extend(st);
            block.stmts.push(Stmt::Expr(parse_quote!(__lazy), None));
        }
    }
    d.visit_block_mut(&mut block);
    if d.modes.get("params").map_or(false, |m| m == "drop") {
        let mut owned = param_names(sig);
        if sig.receiver().map_or(false, |r| r.reference.is_none()) {
            owned.push("self".into());
        }
        let gone = owned_at_end(&owned, &block);
        let st: Vec<Stmt> = gone.iter().map(|n| parse_quote!(#n.released();)).collect();
        let tail = match block.stmts.last() {
            Some(Stmt::Expr(e, None)) if !st.is_empty() => {
                let e = e.clone();
                block.stmts.pop();
                Some(e)
            }
            _ => None,
        };
        match tail {
            Some(t) => {
                block.stmts.push(parse_quote!(let __tail = #t;));
                block.stmts.extend(st);
                block.stmts.push(Stmt::Expr(parse_quote!(__tail), None));
            }
            None => block.stmts.extend(st),
        }
    }
    if dir.get("exit").is_some() {
        let ty: Type = match d.modes.get("exit") {
            Some(t) => syn::parse_str(t).unwrap_or_else(|e| die(format!("mode exit: {e}"))),
            None => parse_quote!(_),
        };
        Exits(ty.clone()).visit_block_mut(&mut block);
        if let Some(Stmt::Expr(e, None)) = block.stmts.last() {
            if !matches!(e, Expr::Return(_)) {
                let e = e.clone();
                block.stmts.pop();
                block.stmts.extend(exit(&e, &ty));
                block.stmts.push(Stmt::Expr(parse_quote!(__r), None));
            }
        }
    }
    let names: Vec<String> = dir.all("at").map(|a| a.0.to_string()).collect();
    At { names }.visit_block_mut(&mut block);
    let mut names: Vec<(&str, &str)> = dir.all("ghost").collect();
    let effects = EFFECTS.with(|e| e.borrow().clone());
    let own = tracked(dir.get("sig").unwrap_or(""));
    let arg = own.first().map(|o| format!("Tracked({})", o.0)).unwrap_or_default();
    if own.len() == 1 {
        for (n, t) in &effects {
            if *t == own[0].1 && n != "new" && !RESERVED.contains(&n.as_str()) && !names.iter().any(|x| x.0 == n || x.0.rsplit("::").next() == Some(n)) {
                names.push((n, &arg));
            }
        }
    }
    names.retain(|x| x.1.trim() != "-");
    Ghost { names }.visit_block_mut(&mut block);
    let mut body = ts(&block);
    struct Closures(usize);
    impl<'a> syn::visit::Visit<'a> for Closures {
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            self.0 += 1;
            syn::visit::visit_expr_closure(self, c);
        }
    }
    let mut left = Closures(0);
    syn::visit::Visit::visit_block(&mut left, &block);
    if left.0 > 0 {
        die(format!("{}: a closure the extraction does not take apart", dir.item));
    }
    for (arg, text) in dir.all("subst") {
        let Some((from, to)) = text.split_once("==>") else { die("subst needs ==>") };
        match token_replace(&body, from.trim(), to.trim()) {
            Some(b) => body = b,
            None if arg == "opt" => {}
            None => die(format!("{}: nothing to substitute for `{}`", dir.item, from.trim())),
        }
    }
    let (mut loops, sources) = (d.loops, d.sources);
    // markers that were substituted away
    loops.retain(|_| true);
    Extracted {
        sig: ts(*sig),
        params: param_names(sig),
        free_sig,
        body: pretty(&body),
        line,
        loops,
        sources,
        dropped,
        inlined: inl.inlined,
    }
}

/// A struct, enum, constant or associated constant, with its attributes dropped and its fields public.
pub fn extract_type(file: &File, dir: &Dir) -> String {
    let pubv: Visibility = parse_quote!(pub);
    let mut found = vec![];
    let (ty, name) = match dir.item.rsplit_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, dir.item.as_str()),
    };
    for i in &file.items {
        match i {
            Item::Struct(s) if ty.is_none() && s.ident == name && enabled(&s.attrs) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = pubv.clone();
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = pubv.clone();
                }
                found.push(ts(&s));
            }
            Item::Enum(s) if ty.is_none() && s.ident == name && enabled(&s.attrs) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = pubv.clone();
                s.variants = s.variants.into_iter().filter(|v| enabled(&v.attrs)).map(|mut v| {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                    v
                }).collect();
                found.push(ts(&s));
            }
            Item::Const(c) if ty.is_none() && c.ident == name => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = pubv.clone();
                found.push(ts(&c));
            }
            Item::Static(c) if ty.is_none() && c.ident == name => {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                found.push(ts(&quote!(pub const #i: #t = #e;)));
            }
            Item::Impl(im) if ty.is_some() && im.trait_.is_none() && ts(&im.self_ty) == ty.unwrap() => {
                for c in &im.items {
                    if let ImplItem::Const(c) = c {
                        if c.ident == name {
                            let mut c = c.clone();
                            c.attrs.clear();
                            c.vis = pubv.clone();
                            found.push(ts(&c));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if found.len() != 1 {
        die(format!("{} in {}: found {} times", dir.item, dir.file, found.len()));
    }
    let mut body = found.remove(0);
    for (arg, text) in dir.all("subst") {
        let Some((from, to)) = text.split_once("==>") else { die("subst needs ==>") };
        match token_replace(&body, from.trim(), to.trim()) {
            Some(b) => body = b,
            None if arg == "opt" => {}
            None => die(format!("{}: nothing to substitute for `{}`", dir.item, from.trim())),
        }
    }
    pretty(&body)
}
