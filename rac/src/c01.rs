use crate::{bus, check, Ctx, Rng};
use ipmb::{Label, LabelOp};
use std::collections::BTreeSet;

fn strings() -> Vec<String> {
    let long = "x".repeat(23);
    vec![
        "a".into(), "b".into(), "".into(), "A".into(), "ab".into(), "a ".into(), " a".into(), "aa".into(),
        "é".into(), "e\u{301}".into(), "a\0".into(), "\0".into(), "foo.bar".into(), "foo".into(), "bar".into(),
        long.clone(), format!("{long}x"), format!("{long}y"), "y".repeat(300), "日本".into(),
        "\n".into(), "a\n".into(), format!("{}z", " ".repeat(40)), " ".repeat(64),
    ]
}

#[derive(Clone, Debug)]
enum E {
    T,
    F,
    L(usize),
    N(Box<E>),
    A(Box<E>, Box<E>),
    O(Box<E>, Box<E>),
}
impl E {
    fn op(&self, s: &[String]) -> LabelOp {
        match self {
            E::T => LabelOp::True,
            E::F => LabelOp::False,
            E::L(i) => LabelOp::from(s[*i].as_str()),
            E::N(a) => !a.op(s),
            E::A(a, b) => a.op(s).and(b.op(s)),
            E::O(a, b) => a.op(s).or(b.op(s)),
        }
    }
    fn eval(&self, s: &[String], l: &BTreeSet<String>) -> bool {
        match self {
            E::T => true,
            E::F => false,
            E::L(i) => l.contains(&s[*i]),
            E::N(a) => !a.eval(s, l),
            E::A(a, b) => a.eval(s, l) & b.eval(s, l),
            E::O(a, b) => a.eval(s, l) | b.eval(s, l),
        }
    }
    fn show(&self) -> String {
        match self {
            E::T => "T".into(),
            E::F => "F".into(),
            E::L(i) => format!("{i}"),
            E::N(a) => format!("!{}", a.show()),
            E::A(a, b) => format!("({}&{})", a.show(), b.show()),
            E::O(a, b) => format!("({}|{})", a.show(), b.show()),
        }
    }
}

fn exprs(depth: usize) -> Vec<E> {
    let mut v = vec![E::T, E::F, E::L(0), E::L(1)];
    for _ in 0..depth {
        let base: Vec<E> = v.iter().take(24).cloned().collect();
        let mut n = vec![];
        for a in &base {
            n.push(E::N(Box::new(a.clone())));
            for b in &base {
                n.push(E::A(Box::new(a.clone()), Box::new(b.clone())));
                n.push(E::O(Box::new(a.clone()), Box::new(b.clone())));
            }
        }
        v.extend(n);
    }
    v
}
fn rand_expr(r: &mut Rng, n: usize, d: usize) -> E {
    match if d == 0 { r.below(4) } else { r.below(10) } {
        0 => E::T,
        1 => E::F,
        2 | 3 => E::L(r.below(n as u64) as usize),
        4 | 5 => E::N(Box::new(rand_expr(r, n, d - 1))),
        6 | 7 => E::A(Box::new(rand_expr(r, n, d - 1)), Box::new(rand_expr(r, n, d - 1))),
        _ => E::O(Box::new(rand_expr(r, n, d - 1)), Box::new(rand_expr(r, n, d - 1))),
    }
}

fn same(l: &Label, m: &BTreeSet<String>) -> Result<(), String> {
    let v: Vec<&str> = l.iter().collect();
    let set: BTreeSet<String> = v.iter().map(|s| s.to_string()).collect();
    check!(v.len() == set.len(), "a string occurs twice in {v:?}");
    check!(&set == m, "label is {set:?}, expected {m:?}");
    Ok(())
}

pub fn run(c: &Ctx) {
    let s = strings();
    c.rule("insert/remove histories over a fixed alphabet of awkward strings, compared with a set after every step; all expressions to depth 2 over two strings and random deeper ones, on labels of 0..24 strings; non-trivial: the history changes the set, or the expression contains a string");
    // histories: exhaustive over 3 strings, length 5
    for pick in [[0usize, 1, 2], [0, 3, 5], [15, 16, 17], [18, 22, 23], [8, 9, 10]] {
        for code in 0..6usize.pow(5) {
            let mut x = code;
            let ops: Vec<usize> = (0..5).map(|_| { let o = x % 6; x /= 6; o }).collect();
            c.case(&format!("history/{pick:?}/{ops:?}"), || {
                let mut l = Label::default();
                let mut m = BTreeSet::new();
                for o in &ops {
                    let t = &s[pick[o % 3]];
                    if *o < 3 {
                        l.insert(t);
                        m.insert(t.clone());
                    } else {
                        l.remove(t);
                        m.remove(t);
                    }
                    same(&l, &m)?;
                    for (i, u) in s.iter().enumerate() {
                        check!(l.all([u.as_str()]) == m.contains(u), "all([#{i}]) on {m:?}");
                        check!(LabelOp::from(u.as_str()).validate(&l) == m.contains(u), "leaf #{i} on {m:?}");
                    }
                }
                Ok(!m.is_empty())
            });
        }
    }
    // long random histories: spilled storage, conversions, multi-string membership
    let mut r = Rng(c.seed);
    for k in 0..if c.thorough { 4000 } else { 400 } {
        let mut rr = Rng(r.next());
        c.case(&format!("long/{}/{k}", c.seed), || {
            let mut l = Label::default();
            let mut m = BTreeSet::new();
            for _ in 0..40 {
                let t = &s[rr.below(s.len() as u64) as usize];
                if rr.below(3) > 0 {
                    l.insert(t);
                    m.insert(t.clone());
                } else {
                    l.remove(t);
                    m.remove(t);
                }
            }
            same(&l, &m)?;
            // conversion from a list with repetitions
            let list: Vec<&String> = (0..rr.below(20)).map(|_| &s[rr.below(s.len() as u64) as usize]).collect();
            same(&Label::from(list.clone()), &list.iter().map(|x| x.to_string()).collect())?;
            for _ in 0..20 {
                let q: Vec<&str> = (0..rr.below(4)).map(|_| s[rr.below(s.len() as u64) as usize].as_str()).collect();
                check!(l.all(q.clone()) == q.iter().all(|x| m.contains(*x)), "all({q:?}) on {m:?}");
            }
            for _ in 0..30 {
                let e = rand_expr(&mut rr, s.len(), 6);
                check!(e.op(&s).validate(&l) == e.eval(&s, &m), "{} on {m:?}", e.show());
                let e2 = e.op(&s);
                let enc = ipmb::encode(&e2).map_err(|e| format!("{e}"))?;
                let dec: LabelOp = ipmb::decode(&enc).map_err(|e| format!("{e}"))?;
                check!(dec.validate(&l) == e.eval(&s, &m), "decoded {} on {m:?}", e.show());
            }
            let dl: Label = ipmb::decode(&ipmb::encode(&l).map_err(|e| format!("{e}"))?).map_err(|e| format!("{e}"))?;
            same(&dl, &m)?;
            Ok(true)
        });
    }
    // expressions
    for (i, e) in exprs(2).iter().enumerate() {
        c.case(&format!("expr/{i}/{}", e.show()), || {
            for mask in 0..4 {
                let m: BTreeSet<String> = (0..2).filter(|b| mask >> b & 1 == 1).map(|b| s[b].clone()).collect();
                let l = bus::label(&m.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                check!(e.op(&s).validate(&l) == e.eval(&s, &m), "{} on {m:?}", e.show());
            }
            Ok(e.show().contains(['0', '1']))
        });
    }
    // labels of every size up to 24, each string tested in turn
    for n in 0..=s.len() {
        c.case(&format!("size/{n}"), || {
            let m: BTreeSet<String> = s[..n].iter().cloned().collect();
            let mut l = Label::from(&s[..n]);
            same(&l, &m)?;
            for i in 0..n {
                l.insert(&s[i]);
            }
            same(&l, &m)?;
            for i in 0..n {
                l.remove(&s[n - 1 - i]);
                same(&l, &s[..n - 1 - i].iter().cloned().collect())?;
            }
            Ok(n > 0)
        });
    }
}
