//! C27: nothing is altered by being used, and clones are independent.
use rcrypto::cipher_mode::{Counter, DefaultCounter, DefaultInitialVec, InitialVec, CTR};
use rcrypto::dsa::{DomainParameters, KeyPair as DsaPair, PrivateKey as DsaKey, PublicKey as DsaPub, SignatureContent as DsaSig, DSA};
use rcrypto::ecdsa::{SignatureContent as EcSig, ECDSA};
use rcrypto::elliptic::{CurveP224, CurveP256, EllipticCurve, KeyPair as EcPair, PrivateKey as EcKey, PublicKey as EcPub};
use rcrypto::rsa::{KeyPair, PrivateKey, PublicKey, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::sha::SHA1;
use rcrypto::{Cipher, Digest, Signature, ZUCCipher, ZUCMac, HMAC, ZUC};
use rmath::bigint::{BigInt, Nat};
use vh::dsak::{dom, fips, Dom};
use vh::eck::{b, generic, nat, one_curve, params, pt, show, standard, xy};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill, seq, seqs_upto};
use vh::modes::{configs, configs_few, BoxC, Ciph, Lib, Mode, QIv, REAL};
use vh::refs::bn::Bn;
use vh::refs::ec::{Curve, Pt};
use vh::rsak::{big, bn, cached, Hs, Nums};
use vh::scripted::Script;
use vh::toy::{RawDigest, ToyCipher};
use vh::zoo::{self, BoxD};

fn main() { engine::main("C27", run) }

fn is(what: &dyn Fn() -> String, got: &BigInt, want: &Bn) -> R {
    let g = bn(got).map_err(|e| format!("{}: {}", what(), e))?;
    if g != *want { Err(format!("{} is {} instead of {}", what(), g.to_hex(), want.to_hex())) } else { Ok(()) }
}
/// changes a number in place, as its owner may
fn spoil(x: &mut BigInt, how: usize) {
    match how % 5 {
        0 => *x += BigInt::from(0x1234567u32),
        1 => *x *= BigInt::from(0x10001u32),
        2 => *x >>= 3usize,
        3 => *x <<= 33usize,
        _ => *x -= BigInt::from(1u32),
    }
}
fn spoil_nat(x: &mut Nat, how: usize) {
    match how % 5 {
        0 => *x += Nat::from(0x1234567u32),
        1 => *x *= Nat::from(0x10001u32),
        2 => *x >>= 3usize,
        3 => *x <<= 33usize,
        _ => *x -= Nat::from(1u32),
    }
}

// ---- curves

trait Cv: EllipticCurve { fn dup(&self) -> Box<dyn Cv>; }
impl<C: EllipticCurve + Clone + 'static> Cv for C { fn dup(&self) -> Box<dyn Cv> { Box::new(self.clone()) } }
fn real(i: usize) -> Box<dyn Cv> { match i { 4 => Box::new(CurveP224::new().unwrap()), 5 => Box::new(CurveP256::new().unwrap()), _ => Box::new(generic(i)) } }
const RN: [&str; 6] = ["P-224", "P-256", "P-384", "P-521", "fast P-224", "fast P-256"];

const EC_OPS: u64 = 17;
/// the caller's numbers live through the whole history; results are thrown away after being overwritten
struct EcWorld { rc: Curve, g: (BigInt, BigInt), q: (BigInt, BigInt), ng: (BigInt, BigInt), inf: (BigInt, BigInt), off: (BigInt, BigInt), k: Nat, n1: Nat, zero: Nat, one: Nat, gp: Pt, qp: Pt, kb: Bn, kq: Pt, kg: Pt, gq: Pt, dg: Pt }
impl EcWorld {
    fn new(rc: &Curve) -> EcWorld {
        let gp = Pt::A(rc.gx.clone(), rc.gy.clone());
        let kb = rc.n.sub(&b(2)).divrem(&b(3)).0.add(&b(2));
        let qp = rc.mul(&b(3), &gp);
        let (kq, kg, gq, dg) = (rc.mul(&kb, &qp), rc.mul(&kb, &gp), rc.add(&gp, &qp), rc.add(&gp, &gp));
        let ng = rc.neg(&gp);
        let off = (big(&rc.gx), big(&rc.gy.addm(&b(1), &rc.p)));
        EcWorld { g: xy(&gp), q: xy(&qp), ng: xy(&ng), inf: xy(&Pt::Inf), off, k: nat(&kb), n1: nat(&rc.n.sub(&b(1))), zero: nat(&b(0)), one: nat(&b(1)), rc: rc.clone(), gp, qp, kb, kq, kg, gq, dg }
    }
    fn unchanged(&self) -> R {
        let p = |n: &str, v: &(BigInt, BigInt), w: &Pt| -> R {
            let (x, y) = match w { Pt::Inf => (b(0), b(0)), Pt::A(x, y) => (x.clone(), y.clone()) };
            is(&|| format!("the x the caller passed for {}", n), &v.0, &x)?;
            is(&|| format!("the y the caller passed for {}", n), &v.1, &y)
        };
        p("G", &self.g, &self.gp)?;
        p("3G", &self.q, &self.qp)?;
        p("-G", &self.ng, &self.rc.neg(&self.gp))?;
        p("infinity", &self.inf, &Pt::Inf)?;
        p("a point off the curve", &self.off, &Pt::A(self.rc.gx.clone(), self.rc.gy.addm(&b(1), &self.rc.p)))?;
        for (n, v, w) in [("k", &self.k, self.kb.clone()), ("n-1", &self.n1, self.rc.n.sub(&b(1))), ("0", &self.zero, b(0)), ("1", &self.one, b(1))] {
            is(&|| format!("the scalar the caller passed for {}", n), &BigInt::from(v.deep_clone()), &w)?;
        }
        Ok(())
    }
    fn op(&self, t: &T, c: &mut Box<dyn Cv>, op: usize) -> R {
        t.step();
        let gr = |r: (BigInt, BigInt), want: &Pt| -> R {
            let got = pt(&r)?;
            if got != *want { return Err(format!("result {} instead of {}", show(&got), show(want))); }
            // the result is the caller's to change
            let (mut x, mut y) = r;
            spoil(&mut x, 0);
            spoil(&mut y, 1);
            Ok(())
        };
        let on = |got: bool, want: bool| if got != want { Err(format!("membership {} instead of {}", got, want)) } else { Ok(()) };
        let (g, q, ng, o, off) = (&self.g, &self.q, &self.ng, &self.inf, &self.off);
        match op {
            0 => gr(c.add(&g.0, &g.1, &q.0, &q.1), &self.gq),
            1 => gr(c.add(&g.0, &g.1, &g.0, &g.1), &self.dg),
            2 => gr(c.add(&g.0, &g.1, &ng.0, &ng.1), &Pt::Inf),
            3 => gr(c.add(&o.0, &o.1, &g.0, &g.1), &self.gp),
            4 => gr(c.add(&q.0, &q.1, &o.0, &o.1), &self.qp),
            5 => gr(c.double(&g.0, &g.1), &self.dg),
            6 => gr(c.double(&o.0, &o.1), &Pt::Inf),
            7 => gr(c.scalar(&q.0, &q.1, &self.k), &self.kq),
            8 => gr(c.scalar(&g.0, &g.1, &self.zero), &Pt::Inf),
            9 => gr(c.scalar(&q.0, &q.1, &self.one), &self.qp),
            10 => gr(c.scalar(&g.0, &g.1, &self.n1), &self.rc.neg(&self.gp)),
            11 => gr(c.scalar_base_point(&self.one), &self.gp),
            12 => gr(c.scalar_base_point(&self.k), &self.kg),
            13 => gr(c.scalar_base_point(&self.zero), &Pt::Inf),
            14 => { on(c.is_on_curve(&q.0, &q.1), true)?; on(c.is_on_curve(&off.0, &off.1), false) }
            15 => { let d = c.dup(); gr(c.scalar_base_point(&self.one), &self.gp)?; *c = d; Ok(()) }
            _ => gr(c.scalar(&o.0, &o.1, &self.k), &Pt::Inf),
        }
    }
}
const EC_NAME: [&str; 17] = ["G+3G", "G+G", "G+(-G)", "inf+G", "3G+inf", "2G", "2inf", "k(3G)", "0G", "1(3G)", "(n-1)G", "base 1", "base k", "base 0", "membership", "clone", "k inf"];

fn ec_history(t: &T, w: &EcWorld, mut c: Box<dyn Cv>, s: &[usize]) -> R {
    let bits = c.curve_params().field_bits_size();
    let name = c.curve_params().name().to_string();
    for (i, &op) in s.iter().enumerate() {
        let what = || format!("{:?}", s[..=i].iter().map(|&o| EC_NAME[o]).collect::<Vec<_>>());
        w.op(t, &mut c, op).map_err(|e| format!("{}: {}", what(), e))?;
        w.unchanged().map_err(|e| format!("{}: {}", what(), e))?;
        if c.curve_params().field_bits_size() != bits || c.curve_params().name() != name { return Err(format!("{}: name or field size of the curve changed", what())); }
    }
    t.trace();
    t.state(format!("{:?}", s).as_bytes());
    Ok(())
}

// ---- RSA

const RSA_OPS: u64 = 14;
struct RsaWorld { k: Nums, m: Vec<Bn>, mi: Vec<BigInt>, c: Vec<Bn>, ci: Vec<BigInt>, bad: Vec<Bn>, badi: Vec<BigInt>, shown: String, shown_pk: String }
impl RsaWorld {
    fn new(sk: &PrivateKey, k: &Nums) -> RsaWorld {
        let m = vec![b(0), b(1), k.n.sub(&b(2)), k.n.divrem(&b(3)).0];
        let c: Vec<Bn> = m.iter().map(|x| x.powm(&k.e, &k.n)).collect();
        let bad = vec![k.n.clone(), k.n.add(&b(1)), k.n.shl(40)];
        RsaWorld { mi: m.iter().map(big).collect(), ci: c.iter().map(big).collect(), badi: bad.iter().map(big).collect(), m, c, bad, k: k.clone(), shown: format!("{}", sk), shown_pk: format!("{}", sk.public_key()) }
    }
    fn unchanged(&self, sk: &PrivateKey) -> R {
        for (n, v, w) in [("message", &self.mi, &self.m), ("ciphertext", &self.ci, &self.c), ("out of range number", &self.badi, &self.bad)] {
            for i in 0..v.len() { is(&|| format!("the caller's {} {}", n, i), &v[i], &w[i])?; }
        }
        if format!("{}", sk) != self.shown { return Err(format!("the key now shows {} instead of {}", sk, self.shown)); }
        if format!("{}", sk.public_key()) != self.shown_pk { return Err(format!("the public key now shows {} instead of {}", sk.public_key(), self.shown_pk)); }
        Ok(())
    }
    fn op(&self, t: &T, sk: &mut PrivateKey, op: usize) -> R {
        t.step();
        let mut rd = Script::stream(op as u64 + 3);
        let gr = |r: Result<BigInt, rcrypto::CryptoError>, w: &Bn| -> R {
            let mut r = r.map_err(|e| format!("refused: {}", e))?;
            is(&|| "the result".into(), &r, w)?;
            spoil(&mut r, 0);
            Ok(())
        };
        let no = |r: Result<BigInt, rcrypto::CryptoError>| -> R { match r { Ok(x) => Err(format!("a number out of range gave {:#x}", x)), Err(_) => Ok(()) } };
        match op {
            0..=3 => gr(Ok(sk.public_key().encrypt(&self.mi[op])), &self.c[op]),
            4 => gr(sk.decrypt(&self.ci[2], None::<&mut Script>), &self.m[2]),
            5 => gr(sk.decrypt(&self.ci[3], Some(&mut rd)), &self.m[3]),
            6 => gr(sk.decrypt_and_check(&self.ci[2], None::<&mut Script>), &self.m[2]),
            7 => gr(sk.decrypt_and_check(&self.ci[3], Some(&mut rd)), &self.m[3]),
            8 => gr(sk.decrypt(&self.ci[0], Some(&mut rd)), &self.m[0]),
            9 => gr(sk.decrypt(&self.ci[1], None::<&mut Script>), &self.m[1]),
            10 => { for x in &self.badi { no(sk.decrypt(x, None::<&mut Script>))?; no(sk.decrypt_and_check(x, Some(&mut rd)))?; } Ok(()) }
            11 => { sk.is_valid().map_err(|e| format!("the key is no longer valid: {}", e)) }
            12 => { let d = sk.clone(); let _ = sk.decrypt(&self.ci[2], Some(&mut rd)); *sk = d; Ok(()) }
            _ => { let p = sk.public_key().clone(); gr(Ok(p.encrypt(&self.mi[3])), &self.c[3])?; let p2 = p.clone(); drop(p); gr(Ok(p2.encrypt(&self.mi[2])), &self.c[2]) }
        }
    }
}

// ---- objects used side by side with their clones

trait Obj {
    fn n(&self) -> usize;
    fn op(&mut self, i: usize) -> Vec<u8>;
    fn dup(&self) -> Box<dyn Obj>;
    /// a clone starts at the beginning instead of where the original stands
    fn restarts(&self) -> bool { false }
}
struct DigO(BoxD, usize);
impl Obj for DigO {
    fn n(&self) -> usize { 5 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        match i {
            0 => { self.0.write(&[0x61]); vec![] }
            1 => { self.0.write(&fill(self.1 - 1, 3)); vec![] }
            2 => { self.0.write(&fill(self.1 + 2, 9)); vec![] }
            3 => { let mut o = vec![]; self.0.checksum(&mut o); o }
            _ => { self.0.reset(); vec![] }
        }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(DigO(self.0.clone(), self.1)) }
}
fn res(r: Result<usize, String>, o: Vec<u8>) -> Vec<u8> { match r { Ok(n) => { let mut v = vec![1, n as u8]; v.extend(o); v } Err(_) => vec![0] } }
struct BlkO(BoxC, usize);
impl Obj for BlkO {
    fn n(&self) -> usize { 4 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let mut o = vec![9];
        let m = fill(if i == 3 { self.1 - 1 } else { self.1 }, 6 + i % 2);
        let r = if i == 0 || i == 3 { self.0.encrypt(&mut o, &m) } else { self.0.decrypt(&mut o, &m) };
        res(r.map_err(|e| format!("{}", e)), o)
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(BlkO(self.0.clone(), self.1)) }
}
struct ModeO(Lib, usize);
impl Obj for ModeO {
    fn n(&self) -> usize { 6 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let v = |r: Result<Vec<u8>, String>| r.unwrap_or(vec![0xee; 40]);
        match i {
            0 => v(self.0.enc(&fill(3 * self.1, 3))),
            1 => v(self.0.dec(&fill(2 * self.1, 6))),
            2 => { let r = self.0.set_iv(&fill(self.1, 8)); vec![r.is_ok() as u8] }
            3 => v(self.0.update_iv()),
            4 => { let r = self.0.set_iv(&fill(self.1 + 1, 8)); vec![r.is_ok() as u8] }
            _ => v(self.0.enc(&fill(self.1 + 1, 3))),
        }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(ModeO(self.0.clone(), self.1)) }
}
struct CtrO(CTR<BoxC, DefaultCounter>, usize);
impl Obj for CtrO {
    fn n(&self) -> usize { 4 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let mut o = vec![];
        match i {
            0 => { let r = self.0.encrypt(&mut o, &fill(2 * self.1, 3)); res(r.map_err(|e| format!("{}", e)), o) }
            1 => { let r = self.0.decrypt(&mut o, &fill(1, 6)); res(r.map_err(|e| format!("{}", e)), o) }
            2 => vec![self.0.set_counter(DefaultCounter::new(fill(self.1, 9), 8 * self.1).ok().unwrap()).is_ok() as u8],
            _ => { let r = self.0.encrypt(&mut o, &[]); res(r.map_err(|e| format!("{}", e)), o) }
        }
    }
    fn restarts(&self) -> bool { true }
    fn dup(&self) -> Box<dyn Obj> { Box::new(CtrO(self.0.clone(), self.1)) }
}
struct CntO(DefaultCounter);
impl Obj for CntO {
    fn n(&self) -> usize { 3 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        match i { 0 => self.0.next().cloned().unwrap_or(vec![]), 1 => vec![self.0.bits_len() as u8], _ => { self.0.reset(); vec![] } }
    }
    fn restarts(&self) -> bool { true }
    fn dup(&self) -> Box<dyn Obj> { Box::new(CntO(self.0.clone())) }
}
struct IvO(DefaultInitialVec<ToyCipher, Script>);
impl Obj for IvO {
    fn n(&self) -> usize { 2 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let mut v = if i == 0 { vec![] } else { vec![1, 2, 3] };
        match self.0.initial_vec(&mut v) { Ok(()) => v, Err(_) => vec![] }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(IvO(self.0.clone())) }
}
struct ZucO(ZUC);
impl Obj for ZucO {
    fn n(&self) -> usize { 3 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        match i {
            0 => self.0.zuc().to_be_bytes().to_vec(),
            1 => (0..20).flat_map(|_| self.0.zuc().to_be_bytes().to_vec()).collect(),
            _ => { self.0.set([7; 16], [9; 16]); vec![] }
        }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(ZucO(self.0.clone())) }
}
struct ZucC(ZUCCipher);
impl Obj for ZucC {
    fn n(&self) -> usize { 4 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let mut o = vec![];
        let r = match i { 0 => self.0.encrypt(&mut o, &fill(3, 3)), 1 => self.0.decrypt(&mut o, &fill(9, 3)), 2 => self.0.encrypt(&mut o, &[]), _ => { self.0.reset(); Ok(0) } };
        res(r.map_err(|e| format!("{}", e)), o)
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(ZucC(self.0.clone())) }
}
struct RsaO(PrivateKey, Nums);
impl Obj for RsaO {
    fn n(&self) -> usize { 5 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let m = big(&self.1.n.divrem(&b(3)).0);
        let f = |r: Result<BigInt, rcrypto::CryptoError>| match r { Ok(mut x) => { let s = format!("{:#x}", x); spoil(&mut x, 0); s.into_bytes() } Err(_) => vec![0] };
        match i {
            0 => f(Ok(self.0.public_key().encrypt(&m))),
            1 => f(self.0.decrypt(&m, None::<&mut Script>)),
            2 => f(self.0.decrypt_and_check(&m, Some(&mut Script::stream(2)))),
            3 => f(self.0.decrypt(&big(&self.1.n), None::<&mut Script>)),
            _ => vec![self.0.is_valid().is_ok() as u8],
        }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(RsaO(self.0.clone(), self.1.clone())) }
}
struct DsaO(DsaKey);
impl Obj for DsaO {
    fn n(&self) -> usize { 3 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let mut d = DSA::new_uncheck(RawDigest::new(8, 8), Script::stream(5), DsaPair::from(self.0.clone())).ok().unwrap();
        let mut sg = DsaSig::new();
        match i {
            0 => { let r = d.sign(&mut sg, b"abcdefgh"); vec![r.is_ok() as u8].into_iter().chain(AsRef::<Vec<u8>>::as_ref(&sg).clone()).collect() }
            1 => vec![d.verify(&DsaSig::form_bigint(&BigInt::from(7u32), &BigInt::from(9u32)), b"abcdefgh").is_ok() as u8],
            _ => format!("{} {} {}", self.0, self.0.public_key(), self.0.domain_parameters()).into_bytes(),
        }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(DsaO(self.0.clone())) }
}
struct EckO(EcKey);
impl Obj for EckO {
    fn n(&self) -> usize { 3 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        let mut d = ECDSA::new_unchcek(RawDigest::new(28, 8), Script::stream(5), CurveP224::new().unwrap(), EcPair::from(self.0.clone())).ok().unwrap();
        let mut sg = EcSig::new();
        match i {
            0 => { let r = d.sign(&mut sg, b"abcdefgh"); vec![r.is_ok() as u8].into_iter().chain(AsRef::<Vec<u8>>::as_ref(&sg).clone()).collect() }
            1 => vec![d.verify(&EcSig::form_bigint(&BigInt::from(7u32), &BigInt::from(9u32)), b"abcdefgh").is_ok() as u8],
            _ => format!("{} {}", self.0, self.0.public_key()).into_bytes(),
        }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(EckO(self.0.clone())) }
}
struct SigO(SignatureContent);
impl Obj for SigO {
    fn n(&self) -> usize { 3 }
    fn op(&mut self, i: usize) -> Vec<u8> {
        match i { 0 => self.0.as_slice().to_vec(), 1 => { self.0.as_mut_slice().iter_mut().for_each(|x| *x ^= 0x5a); vec![] } _ => { AsMut::<Vec<u8>>::as_mut(&mut self.0).push(3); vec![] } }
    }
    fn dup(&self) -> Box<dyn Obj> { Box::new(SigO(self.0.clone())) }
}

fn apply(o: &mut dyn Obj, ops: &[usize], t: &T) -> Vec<Vec<u8>> { ops.iter().map(|&i| { t.step(); o.op(i) }).collect() }
/// what the original and the clone answer must not depend on what is done with the other
fn apart(t: &T, make: &dyn Fn() -> Box<dyn Obj>, prefix: &[usize], inter: &[usize]) -> R {
    let mut a = make();
    let k = a.n();
    apply(a.as_mut(), prefix, t);
    let mut c = a.dup();
    let (mut ra, mut rb, mut oa, mut ob) = (vec![], vec![], vec![], vec![]);
    for &x in inter {
        t.step();
        if x < k { ra.push(a.op(x)); oa.push(x); } else { rb.push(c.op(x - k)); ob.push(x - k); }
    }
    // finally everything both can answer
    for i in 0..k { ra.push(a.op(i)); oa.push(i); rb.push(c.op(i)); ob.push(i); }
    let mut alone = make();
    apply(alone.as_mut(), prefix, t);
    let wa = apply(alone.as_mut(), &oa, t);
    let mut orig = make();
    apply(orig.as_mut(), prefix, t);
    let mut c2 = orig.dup();
    drop(orig);
    let wb = apply(c2.as_mut(), &ob, t);
    t.trace();
    t.state(format!("{:?}{:?}", prefix, inter).as_bytes());
    let f = |v: &[Vec<u8>]| v.iter().map(|x| hx(x)).collect::<Vec<_>>().join(" ");
    // the clone stands where the original stood
    let mut twin = make();
    apply(twin.as_mut(), prefix, t);
    let wt = apply(twin.as_mut(), &ob, t);
    if !twin.restarts() && wt != wb { return Err(format!("after {:?} and {:?}: the clone answers {}, the original would have answered {}", prefix, ob, f(&wb), f(&wt))); }
    if ra != wa { return Err(format!("after {:?}, clone, {:?} (clone: +{}): the original answers {} instead of {}", prefix, inter, k, f(&ra), f(&wa))); }
    if rb != wb { return Err(format!("after {:?}, clone, {:?} (clone: +{}): the clone answers {} instead of {}", prefix, inter, k, f(&rb), f(&wb))); }
    Ok(())
}
fn clones(c: &Ctx, unit: &str, depth: u32, make: &(dyn Fn() -> Box<dyn Obj> + Sync)) {
    let k = make().n() as u64;
    let pre = seqs_upto(k, 2);
    c.par(&format!("clones/{}", unit), pre * seqs_upto(2 * k, depth), |mut i, t| {
        let p = seq(dig(&mut i, pre) as u64, k, 2);
        let s = seq(i, 2 * k, depth);
        apart(t, make, &p, &s).map_err(|e| format!("{}: {}", unit, e))
    });
}

// ---- signature and encryption objects

/// one long-lived object over caller-supplied key material
type Op<'a> = Box<dyn FnMut(&T, usize) -> R + 'a>;
fn same(what: &str, got: String, want: &str) -> R { if got != want { Err(format!("{} now shows {} instead of {}", what, got, want)) } else { Ok(()) } }

fn oaep<'a>(bits: usize, np: usize, blind: bool) -> Result<(usize, Op<'a>), String> {
    let (sk, k) = cached(bits, np, 1)?;
    let shown = format!("{}", sk.public_key());
    let mut o = OAEP::new_uncheck(Hs::Toy(3).make(), Script::stream(1), KeyPair::from(sk), vec![1, 2], blind).map_err(|e| format!("{}", e))?;
    let mut held: Vec<Vec<u8>> = vec![];
    let mut label = 0u8;
    Ok((6, Box::new(move |_t, i| {
        let m = fill(3, 7);
        let mut buf = vec![];
        match i {
            0 => { o.encrypt(&mut buf, &m).map_err(|e| format!("encrypt: {}", e))?; held = vec![buf, vec![label]]; }
            1 => if held.len() == 2 && held[1] == [label] { o.decrypt(&mut buf, &held[0]).map_err(|e| format!("decrypt: {}", e))?; if buf != m { return Err(format!("decrypted to {}", hx(&buf))); } }
            2 => if o.decrypt(&mut buf, &k.n.to_be()).is_ok() { return Err("ciphertext n accepted".into()); }
            3 => if o.encrypt(&mut buf, &fill(200, 3)).is_ok() { return Err("overlong message accepted".into()); }
            4 => { label ^= 1; o.set_label(vec![1, 2 + label]); }
            _ => if o.decrypt(&mut buf, &[5]).is_ok() { return Err("short ciphertext accepted".into()); }
        }
        same("the public key", format!("{}", o.public_key()), &shown)
    })))
}
fn pkcs1<'a>(bits: usize, np: usize, blind: bool) -> Result<(usize, Op<'a>), String> {
    let (sk, k) = cached(bits, np, 1)?;
    let shown = format!("{}", sk.public_key());
    let mut o = PKCS1::new_uncheck(SHA1::new(), Script::stream(1), KeyPair::from(sk), blind).map_err(|e| format!("{}", e))?;
    let mut ct: Option<Vec<u8>> = None;
    let mut sig: Option<SignatureContent> = None;
    let mut first: Option<Vec<u8>> = None;
    Ok((7, Box::new(move |_t, i| {
        let m = fill(9, 7);
        let mut buf = vec![];
        match i {
            0 => { o.encrypt(&mut buf, &m).map_err(|e| format!("encrypt: {}", e))?; ct = Some(buf); }
            1 => if let Some(c) = &ct { o.decrypt(&mut buf, c).map_err(|e| format!("decrypt: {}", e))?; if buf != m { return Err(format!("decrypted to {}", hx(&buf))); } }
            2 => if o.decrypt(&mut buf, &k.n.to_be()).is_ok() { return Err("ciphertext n accepted".into()); }
            3 => {
                let mut s = SignatureContent::new();
                o.sign(&mut s, &fill(20, 8)).map_err(|e| format!("sign: {}", e))?;
                if let Some(f) = &first { if s.as_slice() != &f[..] { return Err(format!("signature {} instead of {}", hx(s.as_slice()), hx(f))); } }
                first = Some(s.as_slice().to_vec());
                sig = Some(s);
            }
            4 => if let Some(s) = &sig {
                o.verify(s, &fill(20, 8)).map_err(|e| format!("verify: {}", e))?;
                if Some(s.as_slice()) != first.as_deref() { return Err("verifying changed the signature".into()); }
            }
            5 => if let Some(s) = &sig {
                if o.verify(s, &fill(20, 9)).is_ok() { return Err("signature of another message accepted".into()); }
                if Some(s.as_slice()) != first.as_deref() { return Err("verifying changed the signature".into()); }
            }
            _ => { let mut s = SignatureContent::new(); let _ = o.sign(&mut s, &[1, 2]); }
        }
        same("the public key", format!("{}", o.public_key()), &shown)
    })))
}
fn pss<'a>(bits: usize, np: usize, blind: bool) -> Result<(usize, Op<'a>), String> {
    let (sk, k) = cached(bits, np, 1)?;
    let shown = format!("{}", sk.public_key());
    let mut o = PSS::new_uncheck(Hs::Toy(5).make(), Script::stream(1), KeyPair::from(sk), Some(4), blind).map_err(|e| format!("{}", e))?;
    let mut sig: Option<SignatureContent> = None;
    Ok((4, Box::new(move |_t, i| {
        let m = fill(5, 8);
        match i {
            0 => { let mut s = SignatureContent::new(); o.sign(&mut s, &m).map_err(|e| format!("sign: {}", e))?; sig = Some(s); }
            1 => if let Some(s) = &sig {
                let old = s.as_slice().to_vec();
                o.verify(s, &m).map_err(|e| format!("verify: {}", e))?;
                if s.as_slice() != &old[..] { return Err("verifying changed the signature".into()); }
            }
            2 => if let Some(s) = &sig { if o.verify(s, &fill(5, 9)).is_ok() { return Err("signature of another message accepted".into()); } }
            _ => if o.verify(&SignatureContent::from(k.n.to_be()), &m).is_ok() { return Err("signature n accepted".into()); }
        }
        if o.salt_len() != 4 { return Err(format!("salt length is now {}", o.salt_len())); }
        same("the public key", format!("{}", o.public_key()), &shown)
    })))
}
fn dsa_op<'a>(d: Dom) -> (usize, Op<'a>) {
    let x = d.q.sub(&b(3));
    let y = d.y(&x);
    let kp = d.sk(&x);
    let shown = format!("{}", kp.private_key().unwrap());
    let mut o = DSA::new_uncheck(RawDigest::new(12, 8), Script::stream(1), kp).unwrap();
    let mut sig: Option<DsaSig> = None;
    (5, Box::new(move |_t, i| {
        let (m, m2) = (fill(12, 8), fill(12, 9));
        let h = m.clone();
        match i {
            0 => {
                let mut s = DsaSig::new();
                o.sign(&mut s, &m).map_err(|e| format!("sign: {}", e))?;
                let (r, v) = s.to_bigint();
                d.check(&x, &h, &bn(&r)?, &bn(&v)?)?;
                sig = Some(s);
            }
            1 => if let Some(s) = &sig {
                let old = AsRef::<Vec<u8>>::as_ref(s).clone();
                o.verify(s, &m).map_err(|e| format!("verify: {}", e))?;
                if *AsRef::<Vec<u8>>::as_ref(s) != old { return Err("verifying changed the signature".into()); }
            }
            2 => if let Some(s) = &sig {
                let (r, v) = s.to_bigint();
                if !d.verify(&y, &m2, &bn(&r)?, &bn(&v)?) && o.verify(s, &m2).is_ok() { return Err("signature of another message accepted".into()); }
            }
            3 => for (r, s) in [(b(0), b(1)), (b(1), b(0)), (d.q.clone(), b(1)), (b(1), d.q.clone())] {
                if o.verify(&DsaSig::form_bigint(&big(&r), &big(&s)), &m).is_ok() { return Err("signature out of range accepted".into()); }
            }
            _ => { let p = o.key_pair().private_key().unwrap().clone(); same("a clone of the key", format!("{}", p), &shown)?; }
        }
        same("the key", format!("{}", o.key_pair().private_key().unwrap()), &shown)
    }))
}
fn ecdsa_op<'a, C: EllipticCurve + Clone + 'a>(c: C, rc: Curve) -> (usize, Op<'a>) {
    let g = Pt::A(rc.gx.clone(), rc.gy.clone());
    let d = rc.n.sub(&b(3));
    let q = rc.mul(&d, &g);
    let (x, y) = xy(&q);
    let pk = EcPub::new_uncheck(&x, &y);
    let shown = format!("{}", pk);
    let mut o = ECDSA::new_unchcek(RawDigest::new(12, 8), Script::stream(1), c, EcPair::from(EcKey::new_uncheck(pk, &big(&d)))).unwrap();
    let mut sig: Option<EcSig> = None;
    let ver = move |h: &[u8], r: &Bn, s: &Bn| -> bool {
        if r.is_zero() || s.is_zero() || r.ge(&rc.n) || s.ge(&rc.n) { return false; }
        let z = Bn::from_be(h);
        let z = if 8 * h.len() > rc.n.bits() { z.shr(8 * h.len() - rc.n.bits()) } else { z };
        let w = s.invm(&rc.n).unwrap();
        match rc.add(&rc.mul(&z.mulm(&w, &rc.n), &g), &rc.mul(&r.mulm(&w, &rc.n), &q)) { Pt::Inf => false, Pt::A(x, _) => x.rem(&rc.n) == *r }
    };
    (5, Box::new(move |_t, i| {
        let (m, m2) = (fill(12, 8), fill(12, 9));
        match i {
            0 => {
                let mut s = EcSig::new();
                o.sign(&mut s, &m).map_err(|e| format!("sign: {}", e))?;
                let (r, v) = s.to_bigint();
                if !ver(&m, &bn(&r)?, &bn(&v)?) { return Err(format!("wrong signature ({:#x}, {:#x})", r, v)); }
                sig = Some(s);
            }
            1 => if let Some(s) = &sig {
                let old = AsRef::<Vec<u8>>::as_ref(s).clone();
                o.verify(s, &m).map_err(|e| format!("verify: {}", e))?;
                if *AsRef::<Vec<u8>>::as_ref(s) != old { return Err("verifying changed the signature".into()); }
            }
            2 => if let Some(s) = &sig {
                let (r, v) = s.to_bigint();
                if !ver(&m2, &bn(&r)?, &bn(&v)?) && o.verify(s, &m2).is_ok() { return Err("signature of another message accepted".into()); }
            }
            3 => for (r, s) in [(0u32, 1u32), (1, 0)] {
                if o.verify(&EcSig::form_bigint(&BigInt::from(r), &BigInt::from(s)), &m).is_ok() { return Err("signature out of range accepted".into()); }
            }
            _ => { let p = o.public_key().clone(); same("a clone of the key", format!("{}", p), &shown)?; let _ = o.curve(); }
        }
        same("the public key", format!("{}", o.public_key()), &shown)
    }))
}
fn objects<'a>(c: &Ctx, unit: &str, n: usize, depth: u32, mk: &(dyn Fn(usize) -> Result<(usize, Op<'a>), String> + Sync)) {
    // the number of operations is the same for all variants of a unit
    let k = match mk(0) { Ok((k, _)) => k as u64, Err(_) => 1 };
    c.par(unit, n as u64 * seqs_upto(k, depth), |mut i, t| {
        let v = dig(&mut i, n as u64);
        let s = seq(i, k, depth);
        let (_, mut op) = mk(v)?;
        for (j, &x) in s.iter().enumerate() { t.step(); op(t, x).map_err(|e| format!("variant {} after {:?}: {}", v, &s[..=j], e))?; }
        // whatever happened, the object still works
        for x in 0..2 { t.step(); op(t, x).map_err(|e| format!("variant {} after {:?} and then {}: {}", v, s, x, e))?; }
        t.trace();
        t.state(format!("{}{:?}", v, s).as_bytes());
        Ok(())
    });
}

fn run(c: &Ctx) {
    // curve objects
    for i in 0..6 {
        let heavy = i == 2 || i == 3;
        let depth = if heavy { c.pick(1, 2) } else { c.pick(2, 3) };
        let rc = match i { 4 => standard()[0].2.clone(), 5 => standard()[1].2.clone(), _ => standard()[i].2.clone() };
        c.par(&format!("curve/{}", RN[i]), seqs_upto(EC_OPS, depth), |j, t| ec_history(t, &EcWorld::new(&rc), real(i), &seq(j, EC_OPS, depth)).map_err(|e| format!("{}: {}", RN[i], e)));
    }
    if cfg!(feature = "hooks") {
        for p in [11u64, 251] {
            let depth = c.pick(4, 5);
            let rc = one_curve(p);
            c.par(&format!("curve/p{}", p), seqs_upto(EC_OPS, depth), |j, t| {
                let l = match params(&rc) { Some(l) => l, None => return Ok(()) };
                ec_history(t, &EcWorld::new(&rc), Box::new(l), &seq(j, EC_OPS, depth)).map_err(|e| format!("toy curve p={}: {}", rc.p.to_hex(), e))
            });
        }
    }
    // key generation leaves the curve alone
    c.par("generate-key", 4 * 4, |mut i, t| {
        let (ci, how) = (dig(&mut i, 4), dig(&mut i, 4));
        let cv = generic(ci);
        let rc = &standard()[ci].2;
        let w = EcWorld::new(rc);
        let mut obj: Box<dyn Cv> = Box::new(cv.clone());
        for j in 0..3u64 {
            let k = match how {
                0 => cv.generate_key(&mut Script::stream(j)),
                1 => cv.generate_key(&mut Script::stream(0)),
                2 => { let k = cv.clone(); k.generate_key(&mut Script::stream(j)) }
                _ => { obj = Box::new(cv.clone()); cv.generate_key(&mut Script::stream(9)) }
            }.map_err(|e| format!("{}: {}", RN[ci], e))?;
            t.step();
            let (s1, k2) = (format!("{}", k), k.clone());
            w.op(t, &mut obj, 11).map_err(|e| format!("{} after key generation: {}", RN[ci], e))?;
            w.op(t, &mut obj, 12).map_err(|e| format!("{} after key generation: {}", RN[ci], e))?;
            if format!("{}", k) != s1 || format!("{}", k2) != s1 { return Err(format!("{}: generated key {} changed", RN[ci], s1)); }
        }
        t.trace();
        w.unchanged()
    });

    // RSA keys
    let kinds: [(usize, usize, u32, u32); 5] = [(24, 2, 4, 5), (40, 3, 4, 5), (64, 4, 3, 4), (256, 2, 3, 4), (256, 3, 3, 4)];
    for (bits, np, dq, dt) in kinds {
        let depth = c.pick(dq, dt);
        c.par(&format!("rsa-key/{}-{}", bits, np), seqs_upto(RSA_OPS, depth), |i, t| {
            let s = seq(i, RSA_OPS, depth);
            let (mut sk, k) = cached(bits, np, 1)?;
            let w = RsaWorld::new(&sk, &k);
            for (j, &op) in s.iter().enumerate() {
                w.op(t, &mut sk, op).map_err(|e| format!("{} bits, {} primes, after {:?}: {}", bits, np, &s[..=j], e))?;
                w.unchanged(&sk).map_err(|e| format!("{} bits, {} primes, after {:?}: {}", bits, np, &s[..=j], e))?;
            }
            // the cached key is the same object's copy and must have stayed good
            w.op(t, &mut sk, 5)?;
            w.op(t, &mut sk, 11)?;
            t.trace();
            t.state(format!("{:?}", s).as_bytes());
            Ok(())
        });
    }

    // objects built from numbers the caller then changes
    c.par("constructors", 11 * 5 * 4, |mut i, t| {
        let (kind, how, which) = (dig(&mut i, 11), dig(&mut i, 5), dig(&mut i, 4));
        // which: 0..2 change that number, 3 changes all
        let hit = |j: usize| which == 3 || which == j;
        t.steps(2);
        t.trace();
        let d = dom(16, 1, 40, 0);
        let rc = &standard()[0].2;
        match kind {
            0 | 1 | 2 | 3 => {
                let (_, k) = cached(if kind < 2 { 48 } else { 256 }, 2, 1)?;
                let m = big(&k.n.divrem(&b(3)).0);
                let want = k.n.divrem(&b(3)).0.powm(&k.e, &k.n);
                let pk;
                if kind % 2 == 0 {
                    let (mut n, mut e) = (big(&k.n), big(&k.e));
                    pk = PublicKey::from_bigint(&n, &e).map_err(|e| format!("{}", e))?;
                    is(&|| "the caller's n".into(), &n, &k.n)?;
                    is(&|| "the caller's e".into(), &e, &k.e)?;
                    if hit(0) { spoil(&mut n, how); }
                    if hit(1) { spoil(&mut e, how); }
                } else {
                    let (mut n, mut e) = (nat(&k.n), nat(&k.e));
                    pk = PublicKey::from_nat(&n, &e).map_err(|e| format!("{}", e))?;
                    if hit(0) { spoil_nat(&mut n, how); }
                    if hit(1) { spoil_nat(&mut e, how); }
                }
                let v = vh::rsak::pub_nums(&pk)?;
                if v != (k.n.clone(), k.e.clone()) { return Err(format!("RSA public key ({}, {}) now shows {}", k.n.to_hex(), k.e.to_hex(), pk)); }
                is(&|| "encryption with the public key".into(), &pk.encrypt(&m), &want)
            }
            4 => {
                let (mut p, mut q, mut g) = (big(&d.p), big(&d.q), big(&d.g));
                let dp = DomainParameters::new_uncheck(&p, &q, &g).map_err(|e| format!("{}", e))?;
                let s = format!("{}", dp);
                if hit(0) { spoil(&mut p, how); }
                if hit(1) { spoil(&mut q, how); }
                if hit(2) { spoil(&mut g, how); }
                same("the domain", format!("{}", dp), &s)
            }
            5 => {
                let mut y = big(&d.y(&b(5)));
                let dp = d.dp();
                let pk = DsaPub::new_uncheck(&dp, &y).map_err(|e| format!("{}", e))?;
                let s = format!("{}", pk);
                spoil(&mut y, how);
                drop(dp);
                same("the DSA public key", format!("{}", pk), &s)
            }
            6 => {
                let (mut x, y) = (big(&b(5)), d.y(&b(5)));
                let pk = DsaPub::new_uncheck(&d.dp(), &big(&y)).map_err(|e| format!("{}", e))?;
                let sk = DsaKey::new_uncheck(&pk, &x).map_err(|e| format!("{}", e))?;
                let s = format!("{}", sk);
                spoil(&mut x, how);
                same("the DSA private key", format!("{}", sk), &s)?;
                let mut o = DSA::new_uncheck(RawDigest::new(4, 8), Script::stream(3), DsaPair::from(sk)).map_err(|e| format!("{}", e))?;
                let mut sg = DsaSig::new();
                o.sign(&mut sg, b"hash").map_err(|e| format!("{}", e))?;
                let (r, v) = sg.to_bigint();
                d.check(&b(5), b"hash", &bn(&r)?, &bn(&v)?).map(|_| ())
            }
            7 => {
                let q = rc.mul(&b(5), &Pt::A(rc.gx.clone(), rc.gy.clone()));
                let (mut x, mut y) = xy(&q);
                let mut k = big(&b(5));
                let pk = EcPub::new_uncheck(&x, &y);
                let s = format!("{}", pk);
                if hit(0) { spoil(&mut x, how); }
                if hit(1) { spoil(&mut y, how); }
                same("the EC public key", format!("{}", pk), &s)?;
                let sk = EcKey::new_uncheck(pk, &k);
                let s2 = format!("{}", sk);
                spoil(&mut k, how);
                same("the EC private key", format!("{}", sk), &s2)?;
                let mut o = ECDSA::new_unchcek(RawDigest::new(4, 8), Script::stream(3), generic(0), EcPair::from(sk)).map_err(|e| format!("{}", e))?;
                let mut sg = EcSig::new();
                o.sign(&mut sg, b"hash").map_err(|e| format!("{}", e))?;
                o.verify(&sg, b"hash").map_err(|e| format!("own signature: {}", e))
            }
            8 | 9 => {
                let (r, s) = (b(0x123456789a), b(0xfedcba9876));
                let (mut ri, mut si) = (big(&r), big(&s));
                let chk = |v: (BigInt, BigInt), ri: &BigInt, si: &BigInt| -> R {
                    is(&|| "r".into(), &v.0, &r)?;
                    is(&|| "s".into(), &v.1, &s)?;
                    is(&|| "the caller's r".into(), ri, &r)?;
                    is(&|| "the caller's s".into(), si, &s)
                };
                if kind == 8 {
                    let sg = DsaSig::form_bigint(&ri, &si);
                    chk(sg.to_bigint(), &ri, &si)?;
                    spoil(&mut ri, how);
                    spoil(&mut si, how);
                    let mut v = sg.to_bigint();
                    spoil(&mut v.0, how);
                    spoil(&mut v.1, how);
                    chk(sg.to_bigint(), &big(&r), &big(&s))
                } else {
                    let mut sg = EcSig::new();
                    sg.set(ri.clone(), si.clone());
                    chk(sg.to_bigint(), &ri, &si)?;
                    spoil(&mut ri, how);
                    spoil(&mut si, how);
                    let mut v = sg.to_bigint();
                    spoil(&mut v.0, how);
                    spoil(&mut v.1, how);
                    chk(sg.to_bigint(), &big(&r), &big(&s))
                }
            }
            _ => {
                // numbers in byte strings belong to the caller, too
                let (_, k) = cached(48, 2, 1)?;
                let (n, e) = (k.n.to_be(), k.e.to_be());
                let pk = PublicKey::from_be_bytes(&n, &e).map_err(|e| format!("{}", e))?;
                if n != k.n.to_be() || e != k.e.to_be() { return Err("the caller's bytes changed".into()); }
                let (a, c2) = (pk.clone(), pk.clone());
                drop(pk);
                let m = big(&b(77 + how as u64));
                let want = b(77 + how as u64).powm(&k.e, &k.n);
                is(&|| "encryption with a clone".into(), &a.encrypt(&m), &want)?;
                drop(a);
                is(&|| "encryption with a second clone".into(), &c2.encrypt(&m), &want)
            }
        }
    });

    // long-lived signature and encryption objects
    let keys = [(96usize, 2usize), (120, 3)];
    objects(c, "oaep", 4, c.pick(4, 5), &|v| oaep(keys[v / 2].0, keys[v / 2].1, v % 2 == 1));
    let keys2 = [(376usize, 2usize), (400, 3)];
    objects(c, "pkcs1", 4, c.pick(3, 4), &|v| pkcs1(keys2[v / 2].0, keys2[v / 2].1, v % 2 == 1));
    objects(c, "pss", 4, c.pick(5, 6), &|v| pss(keys[v / 2].0 + 8, keys[v / 2].1, v % 2 == 1));
    objects(c, "dsa", 3, c.pick(4, 5), &|v| Ok(dsa_op(match v { 0 => dom(16, 1, 40, 0), 1 => dom(40, 0, 70, 1), _ => dom(80, 1, 160, 0) })));
    objects(c, "dsa-fips", 1, c.pick(1, 2), &|_| Ok(dsa_op(fips(0))));
    objects(c, "ecdsa", 2, c.pick(2, 3), &|v| Ok(if v == 0 { ecdsa_op(CurveP224::new().unwrap(), standard()[0].2.clone()) } else { ecdsa_op(CurveP256::new().unwrap(), standard()[1].2.clone()) }));
    objects(c, "ecdsa-generic", 1, c.pick(2, 3), &|_| Ok(ecdsa_op(generic(0), standard()[0].2.clone())));
    if cfg!(feature = "hooks") {
        objects(c, "ecdsa-small", 1, c.pick(4, 5), &|_| { let rc = one_curve(60000); match params(&rc) { Some(l) => Ok(ecdsa_op(l, rc)), None => Err("no hook".into()) } });
    }

    // clones
    for s in zoo::md_family().iter().chain(zoo::sha3_family().iter()) {
        let (mk, rate) = (s.make, s.rate);
        let slow = s.name.starts_with("sha3") || s.name.starts_with("SHA3::") || s.name.to_lowercase().contains("shake");
        clones(c, s.name, if slow { c.pick(1, 2) } else { c.pick(2, 3) }, &move || Box::new(DigO(BoxD(mk()), rate)));
    }
    for s in zoo::md_family().iter() {
        let (mk, bl) = (s.make, s.block.unwrap());
        clones(c, &format!("HMAC-{}", s.name), c.pick(1, 3), &move || Box::new(DigO(BoxD(Box::new(HMAC::new(fill(5, 3), BoxD(mk())).ok().unwrap())), bl)));
    }
    clones(c, "ZUCMac", c.pick(3, 4), &|| Box::new(DigO(BoxD(Box::new(ZUCMac::new(3, 4, true, [5; 16]))), 4)));
    clones(c, "ZUCCipher", c.pick(4, 5), &|| Box::new(ZucC(ZUCCipher::new(3, 4, true, [5; 16]))));
    clones(c, "ZUC", c.pick(4, 5), &|| Box::new(ZucO(ZUC::new([1; 16], [2; 16]))));
    for ci in REAL {
        clones(c, &format!("{:?}", ci), c.pick(3, 4), &move || Box::new(BlkO(ci.lib(), ci.bs())));
    }
    let big = [100usize, 256, 300].iter().flat_map(|&n| configs_few(Ciph::Toy(n)).into_iter().filter(move |g| g.m == Mode::Ofb || 2 * g.unit() >= n));
    for g in configs(Ciph::Toy(2)).into_iter().chain(configs(Ciph::Toy(3))).chain(big) {
        let bs = g.c.bs();
        clones(c, &g.name(), c.pick(2, 3), &move || Box::new(ModeO(g.make(QIv { ivs: (0..5).map(|i| Some(fill(bs, 20 + i))).collect(), pos: 0 }).ok().unwrap(), bs)));
    }
    for bs in [1usize, 2, 16, 100, 300] {
        let ci = if bs == 16 { Ciph::Aes(16) } else { Ciph::Toy(bs) };
        clones(c, &format!("CTR-{:?}", ci), c.pick(3, 4), &move || Box::new(CtrO(CTR::new(ci.lib(), DefaultCounter::new(vec![0xfe; bs], 8 * bs).ok().unwrap()).ok().unwrap(), bs)));
    }
    clones(c, "counter", c.pick(4, 6), &|| Box::new(CntO(DefaultCounter::new(vec![0xff, 0xfd], 16).ok().unwrap())));
    clones(c, "iv-source", c.pick(6, 8), &|| Box::new(IvO(DefaultInitialVec::new(&ToyCipher::new(5, 1), Script::stream(3)))));
    clones(c, "rsa-signature", c.pick(4, 6), &|| Box::new(SigO(SignatureContent::from(vec![1, 2, 3]))));
    for (bits, np) in [(24usize, 2usize), (40, 3)] {
        clones(c, &format!("rsa-{}-{}", bits, np), c.pick(2, 3), &move || { let (sk, k) = cached(bits, np, 1).unwrap(); Box::new(RsaO(sk, k)) });
    }
    clones(c, "dsa-key", c.pick(3, 4), &|| { let d = dom(16, 1, 40, 0); Box::new(DsaO(d.sk(&b(77)).private_key().unwrap().clone())) });
    clones(c, "ec-key", c.pick(1, 2), &|| {
        let rc = &standard()[0].2;
        let (x, y) = xy(&rc.mul(&b(77), &Pt::A(rc.gx.clone(), rc.gy.clone())));
        Box::new(EckO(EcKey::new_uncheck(EcPub::new_uncheck(&x, &y), &BigInt::from(77u32))))
    });

}
