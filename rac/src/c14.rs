use crate::{bus::*, c13::endpoint, check, sys, Ctx, Rng};
use ipmb::{decode, encode, BytesMessage, EndpointReceiver, EndpointSender, Error, LabelOp, Message, MessageBox, RecvError, Selector};
use serde::{Deserialize, Serialize};
use std::time::Duration;
use type_uuid::TypeUuid;

#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0078"]
pub struct A(pub u32);
#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0079"] // differs in the last bit only
pub struct B(pub u32);
#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "fb07473e-9659-4d47-a502-8245d71c0078"] // differs in the first bit only
pub struct C(pub String);
#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "00000000-0000-0000-0000-000000000000"]
pub struct Z;
#[derive(Debug, Serialize, Deserialize, TypeUuid, PartialEq, Clone)]
#[uuid = "ffffffff-ffff-ffff-ffff-ffffffffffff"]
pub struct F(pub Vec<u8>, pub Option<bool>);

#[derive(Debug, ipmb::MessageBox, PartialEq, Clone)]
pub enum All {
    A(A),
    B(B),
    C(C),
    Z(Z),
    F(F),
}
#[derive(Debug, ipmb::MessageBox, PartialEq, Clone)]
pub enum Some2 {
    SecondIsFirst(B),
    C(C),
}
#[derive(Debug, ipmb::MessageBox, PartialEq, Clone)]
pub enum Only {
    Z(Z),
}

pub fn run(c: &Ctx) {
    c.rule("every alternative of message enumerations against every type identifier (identifiers differing in one bit included) and payload bytes (valid, truncated, of other types, random): decoded exactly when the identifier is the type's; sequences of known, unknown and undecodable messages to endpoints and the controller; payloads replaced after the message was made; non-trivial: identifier and payload belong to different types, or unknown messages lie between");
    let mut r = Rng(c.seed.wrapping_mul(179424673));
    let vals = values(&mut r);
    c.case("identifiers", || identifiers(&vals));
    let seed = r.next();
    c.case(&format!("dispatch/{seed}"), || dispatch(&mut Rng(seed), if c.thorough { 400_000 } else { 30_000 }));
    c.case("every-bit", every_bit);
    for k in 0..if c.thorough { 200 } else { 24 } {
        let seed = r.next();
        c.case(&format!("sequence/{k}/{seed}"), || sequence(seed, k % 2 == 0));
    }
    for k in 0..if c.thorough { 300 } else { 40 } {
        let seed = r.next();
        c.case(&format!("raw/{k}/{seed}"), || raw(seed));
    }
    c.case("replaced", replaced);
}

fn values(r: &mut Rng) -> Vec<All> {
    let mut v = vec![All::A(A(0)), All::A(A(u32::MAX)), All::B(B(0)), All::B(B(7)), All::C(C("".into())), All::C(C("text".into())), All::Z(Z), All::F(F(vec![], None)), All::F(F(vec![1, 2, 3], Some(true)))];
    for _ in 0..10 {
        v.push(All::A(A(r.next() as u32)));
        v.push(All::C(C(format!("{}", r.next()))));
        v.push(All::F(F((0..r.below(30)).map(|i| i as u8).collect(), Some(r.below(2) == 0))));
    }
    v
}
fn want_uuid(v: &All) -> [u8; 16] {
    match v {
        All::A(_) => A::UUID,
        All::B(_) => B::UUID,
        All::C(_) => C::UUID,
        All::Z(_) => Z::UUID,
        All::F(_) => F::UUID,
    }
}
fn inner(v: &All) -> Vec<u8> {
    match v {
        All::A(x) => encode(x),
        All::B(x) => encode(x),
        All::C(x) => encode(x),
        All::Z(x) => encode(x),
        All::F(x) => encode(x),
    }
    .unwrap()
}
fn identifiers(vals: &[All]) -> Result<bool, String> {
    for v in vals {
        check!(v.uuid() == want_uuid(v), "the identifier of {v:?} is not its type's");
        let e = v.encode().map_err(|e| format!("{e:?}"))?;
        check!(e == inner(v), "{v:?} is not encoded as its payload");
        let d = <All as MessageBox>::decode(v.uuid(), &e).map_err(|e| format!("{v:?} does not decode: {e:?}"))?;
        check!(d == *v, "{v:?} comes back as {d:?}");
    }
    let a = A(5);
    check!(MessageBox::uuid(&a) == A::UUID, "identifier of a plain type");
    check!(<A as MessageBox>::decode(A::UUID, &a.encode().unwrap()).map_or(false, |x| x == a), "a plain type does not come back");
    check!(matches!(<A as MessageBox>::decode(B::UUID, &a.encode().unwrap()), Err(Error::TypeUuidNotFound)), "a plain type is decoded under another identifier");
    Ok(true)
}
/// what must happen for an identifier and bytes
fn spec(u: [u8; 16], d: &[u8]) -> Result<All, bool> {
    // Err(false): not known, Err(true): does not decode
    let bad = |_| true;
    if u == A::UUID {
        decode::<A>(d).map(All::A).map_err(bad)
    } else if u == B::UUID {
        decode::<B>(d).map(All::B).map_err(bad)
    } else if u == C::UUID {
        decode::<C>(d).map(All::C).map_err(bad)
    } else if u == Z::UUID {
        decode::<Z>(d).map(All::Z).map_err(bad)
    } else if u == F::UUID {
        decode::<F>(d).map(All::F).map_err(bad)
    } else {
        Err(false)
    }
}
fn same(what: &str, u: [u8; 16], d: &[u8], got: Result<All, Error>) -> Result<(), String> {
    match (spec(u, d), got) {
        (Ok(a), Ok(b)) => check!(a == b, "{what}: {u:?} {d:?} decodes as {b:?} instead of {a:?}"),
        (Err(false), Err(Error::TypeUuidNotFound)) | (Err(true), Err(Error::Decode(_))) => {}
        (w, g) => return Err(format!("{what}: {u:?} {d:?} gives {g:?} instead of {w:?}")),
    }
    Ok(())
}
fn dispatch(r: &mut Rng, n: usize) -> Result<bool, String> {
    let vals = values(r);
    let us = [A::UUID, B::UUID, C::UUID, Z::UUID, F::UUID];
    for k in 0..n {
        let mut u = us[r.below(5) as usize];
        if k % 4 == 0 {
            u[r.below(16) as usize] ^= 1 << r.below(8);
        }
        let mut d = inner(&vals[r.below(vals.len() as u64) as usize]);
        match r.below(4) {
            0 => d.truncate(r.below(d.len() as u64 + 1) as usize),
            1 => d = (0..r.below(12)).map(|_| r.next() as u8).collect(),
            _ => {}
        }
        same("enumeration", u, &d, <All as MessageBox>::decode(u, &d))?;
        let g = <Some2 as MessageBox>::decode(u, &d);
        if u == B::UUID || u == C::UUID {
            same("smaller enumeration", u, &d, g.map(|x| match x {
                Some2::SecondIsFirst(b) => All::B(b),
                Some2::C(c) => All::C(c),
            }))?;
        } else {
            check!(matches!(g, Err(Error::TypeUuidNotFound)), "an identifier that is none of the alternatives' gives {g:?}");
        }
        let g = <A as MessageBox>::decode(u, &d);
        if u == A::UUID {
            same("plain", u, &d, g.map(All::A))?;
        } else {
            check!(matches!(g, Err(Error::TypeUuidNotFound)), "another identifier than the type's gives {g:?}");
        }
        let g = <Only as MessageBox>::decode(u, &d);
        check!(if u == Z::UUID { g.is_ok() } else { matches!(g, Err(Error::TypeUuidNotFound)) }, "a single alternative: {g:?}");
    }
    Ok(true)
}
fn every_bit() -> Result<bool, String> {
    for base in [A::UUID, B::UUID, C::UUID, Z::UUID, F::UUID, BytesMessage::UUID] {
        for i in 0..128 {
            let mut u = base;
            u[i / 8] ^= 1 << (i % 8);
            for d in [&[][..], &[0, 0, 0], &[1, 1, 0], &[255; 4]] {
                same("enumeration", u, d, <All as MessageBox>::decode(u, d))?;
                check!(matches!(<BytesMessage as MessageBox>::decode(u, d), Err(Error::TypeUuidNotFound)), "BytesMessage under another identifier");
            }
        }
    }
    Ok(true)
}

fn join<T: MessageBox, R: MessageBox>(id: &str, l: &[&str], aff: bool) -> Result<(EndpointSender<T>, EndpointReceiver<R>), String> {
    let mut o = opts(id, l, "tok");
    o.controller_affinity = aff;
    ipmb::join(o, Some(Duration::from_secs(10))).map_err(|e| format!("{e:?}"))
}
/// receivers that know different types get theirs, in order, whatever lies between
fn sequence(seed: u64, ctl: bool) -> Result<bool, String> {
    let mut r = Rng(seed);
    let id = uid();
    let _keep = join::<All, Only>(&id, &["ctl"], true)?;
    // the bus of the case: the receivers below are the controller's own or endpoints'
    let id2 = uid();
    let id = if ctl { id2 } else { id };
    let (_t1, mut r1) = join::<All, Some2>(&id, &["x"], ctl)?;
    let (_t2, mut r2) = join::<All, All>(&id, &["x"], false)?;
    let (_t3, mut r3) = join::<All, A>(&id, &["x"], false)?;
    let (tx, _r) = join::<All, Only>(&id, &["s"], false)?;
    let vals = values(&mut r);
    let mut sent = vec![];
    for _ in 0..30 {
        let v = vals[r.below(vals.len() as u64) as usize].clone();
        sent.push(v.clone());
        tx.send(Message::new(Selector::multicast("x"), v)).map_err(|e| format!("{e:?}"))?;
    }
    for v in [All::B(B(1)), All::A(A(77))] {
        sent.push(v.clone());
        tx.send(Message::new(Selector::multicast("x"), v)).map_err(|e| format!("{e:?}"))?;
    }
    let t = Some(Duration::from_secs(3));
    for v in &sent {
        let g = r2.recv(t).map_err(|e| format!("{e:?}"))?.payload;
        check!(g == *v, "{g:?} received instead of {v:?}");
        match v {
            All::B(b) => check!(r1.recv(t).map_err(|e| format!("{e:?}"))?.payload == Some2::SecondIsFirst(b.clone()), "the alternative of {v:?} is not chosen"),
            All::C(b) => check!(r1.recv(t).map_err(|e| format!("{e:?}"))?.payload == Some2::C(b.clone()), "the alternative of {v:?} is not chosen"),
            All::A(a) => check!(r3.recv(t).map_err(|e| format!("{e:?}"))?.payload == *a, "the plain type gets something else than {a:?}"),
            _ => {}
        }
    }
    check!(matches!(r3.recv(Some(Duration::ZERO)), Err(RecvError::Timeout)), "more than the messages of its type");
    Ok(true)
}
/// unknown types and payloads that do not decode, then good ones, by raw frames
fn raw(seed: u64) -> Result<bool, String> {
    let mut r = Rng(seed);
    let _ = c13_sel();
    let ctl = r.below(2) == 0;
    let sel = c13_sel();
    // expression Leaf "e" (3 bytes), mode, identifier
    let u = 4;
    let mut frames = vec![];
    let mut want: Vec<Option<u16>> = vec![];
    for k in 0..12u16 {
        let good = {
            let mut p = varint(k as u64);
            p.push(2);
            p.extend(b"hi");
            p
        };
        let mut s = sel.clone();
        match r.below(4) {
            0 => {
                s[u + r.below(16) as usize] ^= 1 << r.below(8);
                frames.push(frame(header(), &s, &good));
            }
            1 => {
                let bad = [vec![], vec![255; 5], varint(70_000), vec![1, 200, 1], vec![3], vec![251, 1], vec![0, 253, 255, 255, 255, 255, 255, 255, 255, 255], vec![0, 253, 0, 0, 0, 0, 0, 0, 0, 64]];
                frames.push(frame(header(), &s, &bad[r.below(8) as usize]));
                want.push(None);
            }
            _ => {
                frames.push(frame(header(), &s, &good));
                want.push(Some(k));
            }
        }
    }
    let id = uid();
    let addr = addr_of(&id);
    let odd = r.below(2);
    let judge = |rx: &mut Rx| {
        for (i, w) in want.iter().enumerate() {
            match (rx.recv(if i as u64 % 2 == odd { None } else { Some(Duration::from_secs(3)) }), w) {
                (Ok(m), Some(k)) => check!(m.payload.format == *k && m.payload.data == b"hi", "{:?} received instead of {k}", m.payload),
                (Err(RecvError::Decode(_)), None) => {}
                (r, w) => return Err(format!("{:?} instead of {}", r.map(|m| m.payload.format), w.map_or("a decode error".into(), |k| format!("message {k}")))),
            }
        }
        Ok(())
    };
    if ctl {
        let (_tx, mut rx) = controller(&id, &["e"])?;
        let conn = connect_to(&addr).map_err(|e| format!("{e}"))?;
        for f in &frames {
            send_frame(conn.0, f, &[]).map_err(|e| format!("{e}"))?;
        }
        judge(&mut rx)?;
        check!(matches!(rx.recv(Some(Duration::ZERO)), Err(RecvError::Timeout)), "more messages than sent");
    } else {
        let (_tx, mut rx, wr, _c) = endpoint()?;
        let fd = wr.borrow().as_ref().unwrap().0;
        for f in &frames {
            send_frame(fd, f, &[]).map_err(|e| format!("{e}"))?;
        }
        judge(&mut rx)?;
        sys::freeze(true);
        let r = rx.recv(Some(Duration::from_millis(5)));
        sys::freeze(false);
        check!(matches!(r, Err(RecvError::Timeout)), "more messages than sent");
    }
    Ok(true)
}
fn c13_sel() -> Vec<u8> {
    static S: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let id = uid();
        let addr = addr_of(&id);
        let (tx, _rx) = controller(&id, &["ctl"]).unwrap();
        let (p, _) = raw_join(&addr, &frame(header(), &join_selector(), &join_payload(own_version(), "tok", &["e"]))).unwrap();
        tx.send(msg(LabelOp::from("e"), false, Duration::ZERO, 0x1234, b"payload")).unwrap();
        unframe(&wait_frame(p.rd.0, 3000).unwrap().data).unwrap().1
    })
    .clone()
}
/// the identifier is that of the payload sent
fn replaced() -> Result<bool, String> {
    let id = uid();
    let (tx, mut rx) = join::<All, All>(&id, &["ctl"], true)?;
    let (atx, mut arx) = join::<All, All>(&id, &["a"], false)?;
    let vals = [All::A(A(3)), All::B(B(4)), All::C(C("c".into())), All::Z(Z), All::F(F(vec![9], None))];
    for v in &vals {
        for w in &vals {
            for dir in 0..3 {
                let mut m = Message::new(if dir == 2 { Selector::multicast(LabelOp::True) } else { Selector::unicast(["a", "ctl"][dir % 2]) }, v.clone());
                m.payload = w.clone();
                if dir == 0 { &tx } else { &atx }.send(m).map_err(|e| format!("{e:?}"))?;
                let t = Some(Duration::from_secs(3));
                if dir != 1 {
                    let g = arx.recv(t).map_err(|e| format!("{v:?} replaced by {w:?}: {e:?}"))?.payload;
                    check!(g == *w, "{v:?} replaced by {w:?} arrives as {g:?}");
                }
                if dir != 0 {
                    let g = rx.recv(t).map_err(|e| format!("{v:?} replaced by {w:?}: {e:?}"))?.payload;
                    check!(g == *w, "{v:?} replaced by {w:?} arrives as {g:?}");
                }
            }
        }
    }
    // a received message sent on with another payload
    tx.send(Message::new(Selector::unicast("a"), All::A(A(1)))).map_err(|e| format!("{e:?}"))?;
    let mut m = arx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("{e:?}"))?;
    m.payload = All::C(C("x".into()));
    atx.send(m).map_err(|e| format!("{e:?}"))?;
    let g = arx.recv(Some(Duration::from_secs(3))).map_err(|e| format!("sent on: {e:?}"))?.payload;
    check!(g == All::C(C("x".into())), "sent on as {g:?}");
    Ok(true)
}
