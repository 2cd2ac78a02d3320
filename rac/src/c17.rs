//! Identifiers: the socket address is an injective image of the identifier, the same for joining and for becoming controller.
use crate::{bus::*, check, sys, Ctx, Rng};
use ipmb::{BytesMessage, LabelOp};
use std::{collections::HashMap, time::Duration};
use sys::Plan;

/// the addresses the library looks up and registers
fn addrs(id: &str) -> Result<(Vec<u8>, Vec<u8>), String> {
    reset();
    sys::CONNECT_PLAN.with(|p| p.borrow_mut().extend((0..8).map(|_| Plan::Errno(libc::ECONNREFUSED))));
    sys::BIND_PLAN.with(|p| p.borrow_mut().extend((0..8).map(|_| Plan::Errno(libc::EADDRINUSE))));
    sys::freeze(true);
    let _ = ipmb::join::<BytesMessage, BytesMessage>(opts(id, &[], ""), Some(Duration::ZERO));
    let a = sys::ADDRS.with(|a| a.borrow().clone());
    reset();
    check!(a.len() >= 2, "joining made {} attempts", a.len());
    Ok((a[0].clone(), a[1].clone()))
}

pub fn run(c: &Ctx) {
    c.rule("families of identifiers of every length the system can hold (0..106 bytes): every single-byte change, every prefix, case changes, appended bytes, random ones; the socket addresses used to look up and to register are compared for all of them; plus real buses whose identifiers are close to each other, exchanging messages; non-trivial: every case");
    let mut r = Rng(c.seed.wrapping_mul(49979687));
    let mut all: Vec<String> = vec![];
    let base: String = (0..106).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    for n in 0..=106 {
        all.push(base[..n].to_string());
    }
    for n in [1usize, 2, 8, 50, 105, 106] {
        for i in 0..n {
            for ch in ['A', ' ', '/', '\u{1}', '\u{7f}', 'a', 'z'] {
                let mut b: Vec<char> = base[..n].chars().collect();
                b[i] = ch;
                all.push(b.into_iter().collect());
            }
            all.push(base[..n].chars().enumerate().map(|(j, c)| if i == j { c.to_ascii_uppercase() } else { c }).collect());
            all.push(base[..n].chars().enumerate().filter(|(j, _)| *j != i).map(|x| x.1).collect());
        }
    }
    for s in ["com.solar.a", "com.solar.a ", " com.solar.a", "com.solar.a.", "com.solar.ä", "com.solar.a\u{308}", "com.solar", "com_solar", "com/solar", "COM.SOLAR", "é", "ü", "日本", "日", "a\n", "a\t", "%61", "a%00", "\\0"] {
        all.push(s.into());
    }
    for _ in 0..if c.thorough { 30000 } else { 1500 } {
        let n = r.below(107) as usize;
        let mut s = String::new();
        while s.len() < n {
            let ch = char::from_u32([1 + r.below(127) as u32, 0x80 + r.below(0x700) as u32, 0x4e00 + r.below(2000) as u32][r.below(3) as usize]).unwrap();
            if s.len() + ch.len_utf8() > n {
                break;
            }
            s.push(ch);
        }
        all.push(s);
    }
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    for (k, id) in all.iter().enumerate() {
        if c.stop() {
            break;
        }
        c.case(&format!("address/{}/{k}", c.seed), || {
            let (a, b) = addrs(id)?;
            check!(a == b, "{id:?} is looked up at {a:?} and registered at {b:?}");
            let (a2, _) = addrs(id)?;
            check!(a == a2, "{id:?} has two addresses");
            check!(a.len() > 2 && a[2] == 0, "the address of {id:?} is not an abstract one: a file would be made");
            if let Some(o) = seen.get(&a) {
                check!(o == id, "{o:?} and {id:?} have the same address");
            }
            seen.insert(a, id.clone());
            Ok(true)
        });
    }
    let u = uid();
    let families: Vec<Vec<String>> = vec![
        vec![u.clone(), format!("{u}0"), format!("{u}a"), format!("{u}A"), format!("{u} "), u[..u.len() - 1].to_string() + "~", format!(" {u}"), u.to_uppercase() + "x", u.to_uppercase() + "X"],
        {
            let p: String = (0..105 - u.len()).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            vec![format!("{u}{p}"), format!("{u}{p}a"), format!("{u}{p}b"), format!("{u}{}", &p[1..]), format!("{u}{}!", &p[1..]), format!("{u}!{}", &p[1..])]
        },
        vec![format!("é{u}"), format!("e{u}"), format!("e\u{301}{u}"), format!("日{u}"), format!("{u}日"), format!("{u}本")],
    ];
    for (k, f) in families.iter().enumerate() {
        for order in 0..if c.thorough { 6 } else { 2 } {
            c.case(&format!("buses/{k}/{order}"), || buses(f, order));
        }
    }
    c.case("long", || {
        // differ beyond what a socket address holds
        let p: String = (0..120).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let (x, y) = (format!("{p}x"), format!("{p}y"));
        let (a, b) = (addrs(&x)?.0, addrs(&y)?.0);
        check!(a != b, "two identifiers of 121 bytes that differ in the last one have the same address");
        Ok(true)
    });
    c.case("nul", || {
        let (a, b) = (addrs("with\0nul")?.0, addrs("with")?.0);
        check!(a != b, "\"with\\0nul\" and \"with\" have the same address");
        Ok(true)
    });
}

fn buses(f: &[String], order: usize) -> Result<bool, String> {
    let mut ctl = vec![];
    for i in 0..f.len() {
        let i = (i * 7 + order) % f.len();
        if ctl.iter().any(|(j, _, _)| *j == i) {
            continue;
        }
        let (tx, rx) = controller(&f[i], &["ctl", &format!("c{i}")])?;
        ctl.push((i, tx, rx));
    }
    for i in 0..f.len() {
        if !ctl.iter().any(|(j, _, _)| *j == i) {
            let (tx, rx) = controller(&f[i], &["ctl", &format!("c{i}")])?;
            ctl.push((i, tx, rx));
        }
    }
    let mut cl = vec![];
    for i in (0..f.len()).rev() {
        let (tx, rx) = client(&f[i], &[&format!("e{i}")])?;
        cl.push((i, tx, rx));
    }
    for (i, tx, _) in ctl.iter().chain(cl.iter()) {
        tx.send(msg(LabelOp::True, true, Duration::ZERO, *i as u16, f[*i].as_bytes())).map_err(|e| format!("{e:?}"))?;
    }
    for (i, tx, rx) in cl.iter_mut() {
        let g = drain(tx, &format!("e{i}"), rx).map_err(|e| format!("{:?}: {e}", f[*i]))?;
        let v = ids(&g);
        check!(v == [*i as u16; 2], "an endpoint of {:?} got messages of {:?}", f[*i], v.iter().map(|i| &f[*i as usize]).collect::<Vec<_>>());
    }
    for (i, tx, rx) in ctl.iter_mut() {
        let g = drain(tx, &format!("c{i}"), rx).map_err(|e| format!("{:?}: {e}", f[*i]))?;
        let v = ids(&g);
        check!(v == [*i as u16; 2], "the controller of {:?} got messages of {:?}", f[*i], v.iter().map(|i| &f[*i as usize]).collect::<Vec<_>>());
    }
    Ok(true)
}
