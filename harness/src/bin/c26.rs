//! C26: failing random sources.
use rcrypto::cipher_mode::{DefaultInitialVec, DefaultPadding, EmptyPadding, InitialVec, CBC, CFB, OFB};
use rcrypto::dsa::DSA;
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{CurveP224, CurveP256, CurveParams, EllipticCurve, KeyPair as EcPair, PrivateKey as EcKey, PublicKey as EcPub};
use rcrypto::rsa::{KeyPair, PrivateKey, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::sha::SHA1;
use rcrypto::{Cipher, CryptoError, CryptoErrorKind, Signature};
use vh::dsak::{check_sk, dom, fips};
use vh::eck::{generic, standard, xy};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::fill;
use vh::refs::bn::Bn;
use vh::refs::ec::{Curve, Pt};
use vh::refs::modes::{self, xor};
use vh::refs::rsa::{emsa_pkcs1, mgf1, oaep_decode, pss_encode};
use vh::rsak::{bn, big, cached, from_source, quoted, Hs};
use vh::scripted::Faulty;
use vh::toy::{RawDigest, ToyCipher};
use vh::zoo::BoxD;

fn main() { engine::main("C26", run) }

/// Ok(true): done and validated; Ok(false): refused; Err: wrong
type Out = Result<bool, String>;
/// one operation on an object built once; the object is used again and again
type Op<'a> = Box<dyn FnMut(&T, &Faulty) -> Out + 'a>;

fn enough(f: &Faulty, words: usize, what: &str) -> R {
    let g = f.good().len();
    if g < words { Err(format!("{} came from {} successful draws of 32 bits, at least {} are needed", what, g, words)) } else { Ok(()) }
}

/// one fault pattern: the operation is refused or right; it is right once the source has recovered
fn pattern<'a>(t: &T, mk: &dyn Fn(Faulty) -> Op<'a>, seed: u64, fails: &[bool], from: Option<usize>) -> Result<bool, String> {
    let f = Faulty::new(seed);
    let mut op = mk(f.clone());
    let show = || { let v: Vec<usize> = fails.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect(); format!("draws {:?} failing{}", v, from.map_or(String::new(), |i| format!(", and all from number {} on", i))) };
    f.arm(fails.to_vec(), from);
    t.trace();
    let done = op(t, &f).map_err(|e| format!("{}: {}", show(), e))?;
    t.state(format!("{:?}{}", f.log().iter().map(|x| x.is_some()).collect::<Vec<_>>(), done).as_bytes());
    if from.is_some() && !done {
        // still failing
        f.arm(vec![], Some(0));
        op(t, &f).map_err(|e| format!("{}, called again with the source still failing: {}", show(), e))?;
    }
    f.heal();
    match op(t, &f) {
        Ok(true) => Ok(done),
        Ok(false) => Err(format!("{}: still refused after the source has recovered", show())),
        Err(e) => Err(format!("{}, then recovered: {}", show(), e)),
    }
}

/// all subsets of the first draws when there are few, otherwise every single draw, every prefix and all neighbouring pairs
fn explore<'a>(ctx: &Ctx, unit: &str, n_var: usize, lim: usize, mk: &(dyn Fn(usize, Faulty) -> Op<'a> + Sync)) {
    let all = ctx.pick(9, 13);
    const CHUNKS: usize = 16;
    ctx.each(unit, n_var * CHUNKS, |i, t| {
        let (v, chunk) = (i / CHUNKS, i % CHUNKS);
        // a run with a good source tells the number of draws
        let f = Faulty::new(5);
        let mut op = mk(v, f.clone());
        f.heal();
        if !op(t, &f).map_err(|e| format!("variant {}: good source: {}", v, e))? { return Err(format!("variant {}: refused with a good source", v)); }
        let n = f.draws() + 1;
        let mut list: Vec<(Vec<bool>, Option<usize>)> = vec![];
        for i in 0..n.min(lim) { list.push((vec![], Some(i))); }
        if n <= all { for m in 1..1u32 << n { list.push(((0..n).map(|i| m >> i & 1 == 1).collect(), None)); } }
        else {
            for i in 0..n.min(lim) { for w in [1u8, 3, 5] { if w > 1 && i > 60 { continue; } list.push(((0..i + 3).map(|j| j >= i && w >> (j - i) & 1 == 1).collect(), None)); } }
        }
        for (fails, from) in list.iter().skip(chunk).step_by(CHUNKS) {
            pattern(t, &|f| mk(v, f), 5, fails, *from).map_err(|e| format!("variant {}: {}", v, e))?;
        }
        Ok(())
    });
}

fn curve(i: usize) -> Box<dyn EllipticCurve> { match i { 4 => Box::new(CurveP224::new().unwrap()), 5 => Box::new(CurveP256::new().unwrap()), _ => Box::new(generic(i)) } }
struct Dy(Box<dyn EllipticCurve>);
impl EllipticCurve for Dy {
    fn curve_params(&self) -> &CurveParams { self.0.curve_params() }
    fn is_on_curve(&self, x: &rmath::bigint::BigInt, y: &rmath::bigint::BigInt) -> bool { self.0.is_on_curve(x, y) }
    fn add(&self, x1: &rmath::bigint::BigInt, y1: &rmath::bigint::BigInt, x2: &rmath::bigint::BigInt, y2: &rmath::bigint::BigInt) -> (rmath::bigint::BigInt, rmath::bigint::BigInt) { self.0.add(x1, y1, x2, y2) }
    fn double(&self, x: &rmath::bigint::BigInt, y: &rmath::bigint::BigInt) -> (rmath::bigint::BigInt, rmath::bigint::BigInt) { self.0.double(x, y) }
    fn scalar(&self, x: &rmath::bigint::BigInt, y: &rmath::bigint::BigInt, k: &rmath::bigint::Nat) -> (rmath::bigint::BigInt, rmath::bigint::BigInt) { self.0.scalar(x, y, k) }
    fn scalar_base_point(&self, k: &rmath::bigint::Nat) -> (rmath::bigint::BigInt, rmath::bigint::BigInt) { self.0.scalar_base_point(k) }
}

/// the seed of an OAEP block
fn oaep_seed(hs: Hs, em: &[u8]) -> Vec<u8> {
    let h = |x: &[u8]| hs.h(x);
    xor(&em[1..1 + hs.len()], &mgf1(&h, &em[1 + hs.len()..], hs.len()))
}
/// the salt of a PSS block, by trying its layout
fn pss_salt(hs: Hs, em: &[u8], sl: usize) -> Vec<u8> {
    let h = |x: &[u8]| hs.h(x);
    let d = em.len() - hs.len() - 1;
    let db = xor(&em[..d], &mgf1(&h, &em[d..d + hs.len()], d));
    db[d - sl..].to_vec()
}

enum Md { Cbc(CBC<ToyCipher, DefaultPadding<ToyCipher>, DefaultInitialVec<ToyCipher, Faulty>>), Cfb(CFB<ToyCipher, EmptyPadding, DefaultInitialVec<ToyCipher, Faulty>>), Ofb(OFB<ToyCipher, DefaultInitialVec<ToyCipher, Faulty>>) }
impl Md {
    fn new(k: usize, bs: usize, f: Faulty) -> Result<Md, CryptoError> {
        let c = ToyCipher::new(bs, 7);
        let iv = DefaultInitialVec::new(&c, f);
        Ok(match k { 0 => { let p = DefaultPadding::new(&c); Md::Cbc(CBC::new(c, p, iv)?) } 1 => Md::Cfb(CFB::new(c, EmptyPadding::new(), iv, 8)?), _ => Md::Ofb(OFB::new(c, iv)?) })
    }
    fn update(&mut self) -> Result<Vec<u8>, CryptoError> { match self { Md::Cbc(m) => m.update_iv().map(|x| x.clone()), Md::Cfb(m) => m.update_iv().map(|x| x.clone()), Md::Ofb(m) => m.update_iv().map(|x| x.clone()) } }
    fn iv(&self) -> Vec<u8> { match self { Md::Cbc(m) => m.cur_iv(), Md::Cfb(m) => m.cur_iv(), Md::Ofb(m) => m.cur_iv() } }
    fn enc(&self, m: &[u8]) -> Result<Vec<u8>, CryptoError> { let mut o = vec![]; match self { Md::Cbc(c) => c.encrypt(&mut o, m), Md::Cfb(c) => c.encrypt(&mut o, m), Md::Ofb(c) => c.encrypt(&mut o, m) }?; Ok(o) }
    fn reference(&self, bs: usize, iv: &[u8], m: &[u8]) -> Vec<u8> {
        let c = ToyCipher::new(bs, 7);
        match self { Md::Cbc(_) => modes::cbc_enc(&c, iv, &modes::pad(m, bs)), Md::Cfb(_) => modes::cfb(&c, iv, 1, m, false), Md::Ofb(_) => modes::ofb(&c, iv, m) }
    }
    /// the object encrypts under the given IV
    fn right(&self, t: &T, bs: usize, iv: &[u8]) -> R {
        let m = fill(2 * bs + 1, 3);
        t.step();
        if self.iv() != iv { return Err(format!("current IV is {} instead of {}", hx(&self.iv()), hx(iv))); }
        let c = self.enc(&m).map_err(|e| format!("encryption refused: {}", e))?;
        if c != self.reference(bs, iv, &m) { return Err(format!("encryption does not use the IV {}", hx(iv))); }
        Ok(())
    }
}

/// IV generator delivering vectors of scripted lengths; 99 fails
#[derive(Clone)]
struct Lens(Vec<usize>, usize);
impl InitialVec<ToyCipher> for Lens {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        let n = self.0.get(self.1).copied().unwrap_or(99);
        self.1 += 1;
        iv.clear();
        if n == 99 { iv.push(0x55); return Err(CryptoError::new(CryptoErrorKind::RandError, "scripted failure")); }
        for i in 0..n { iv.push((self.1 * 16 + i) as u8); }
        Ok(())
    }
}

fn run(ctx: &Ctx) {
    // initial vectors: construction and every refresh
    explore(ctx, "iv-refresh", 3 * 16, 40, &|v, f| {
        let (k, bs) = (v % 3, 1 + v / 3);
        f.heal();
        let mut m = Md::new(k, bs, f.clone()).unwrap();
        Box::new(move |t, f| {
            let before = m.iv();
            t.step();
            match m.update() {
                Ok(iv) => {
                    if iv.len() != bs { return Err(format!("IV of {} bytes for a block of {}", iv.len(), bs)); }
                    if !from_source(&iv, &f.good()) { return Err(format!("IV {} does not come from the source", hx(&iv))); }
                    m.right(t, bs, &iv)?;
                    Ok(true)
                }
                Err(_) => { m.right(t, bs, &before).map_err(|e| format!("after a failed refresh: {}", e))?; Ok(false) }
            }
        })
    });
    explore(ctx, "iv-construction", 3 * 16, 40, &|v, _| {
        let (k, bs) = (v % 3, 1 + v / 3);
        Box::new(move |t, f| {
            t.step();
            match Md::new(k, bs, f.clone()) {
                Ok(m) => {
                    let iv = m.iv();
                    if iv.len() != bs || !from_source(&iv, &f.good()) { return Err(format!("initial IV {} does not come from the source", hx(&iv))); }
                    m.right(t, bs, &iv)?;
                    Ok(true)
                }
                Err(_) => Ok(false),
            }
        })
    });
    // several refreshes in a row, all subsets of failing draws
    let words = ctx.pick(10, 14);
    ctx.each("iv-histories", 3 << words, |i, t| {
        let (k, mask) = (i % 3, i / 3);
        let bs = [8, 16, 5][i / 7 % 3];
        let f = Faulty::new(i as u64);
        let mut m = Md::new(k, bs, f.clone()).map_err(|e| e.to_string())?;
        let mut iv = m.iv();
        f.arm((0..words).map(|b| mask >> b & 1 == 1).collect(), None);
        t.trace();
        while f.draws() < words {
            let n = f.good().len();
            let (fail, before) = (m.update(), iv.clone());
            match fail {
                Ok(new) => { if new.len() != bs || !from_source(&new, &f.good()[n..]) { return Err(format!("IV {} does not come from the draws made for it", hx(&new))); } iv = new; }
                Err(_) => iv = before,
            }
            m.right(t, bs, &iv).map_err(|e| format!("failing draws {:b}: {}", mask, e))?;
        }
        f.heal();
        iv = m.update().map_err(|e| format!("refresh after recovery refused: {}", e))?;
        m.right(t, bs, &iv)
    });
    // user-supplied generators: failing or delivering the wrong length
    ctx.each("iv-generators", 3 * 5usize.pow(4), |i, t| {
        let bs = 4;
        let lens: Vec<usize> = (0..4).map(|j| [bs, 99, 0, bs - 1, bs + 1][i / 3 / 5usize.pow(j) % 5]).collect();
        let first_bad = lens[0] != bs;
        let c = ToyCipher::new(bs, 7);
        t.trace();
        macro_rules! go { ($m:expr) => {{
            let m = $m;
            if first_bad { return if m.is_ok() { Err(format!("IV lengths {:?}: accepted by the constructor", lens)) } else { Ok(()) }; }
            let mut m = m.map_err(|e| format!("IV lengths {:?}: {}", lens, e))?;
            let mut iv: Vec<u8> = (0..bs).map(|x| (16 + x) as u8).collect();
            for j in 1..5 {
                t.step();
                let r = m.update_iv().map(|x| x.clone());
                let good = lens.get(j) == Some(&bs);
                if r.is_ok() != good { return Err(format!("IV lengths {:?}: refresh {} {}", lens, j, if good { "refused" } else { "accepted" })); }
                if good { iv = (0..bs).map(|x| ((j + 1) * 16 + x) as u8).collect(); }
                if m.cur_iv() != iv { return Err(format!("IV lengths {:?}: after refresh {} the IV is {} instead of {}", lens, j, hx(&m.cur_iv()), hx(&iv))); }
            }
            Ok(())
        }}; }
        let g = Lens(lens.clone(), 0);
        match i % 3 { 0 => { let p = DefaultPadding::new(&c); go!(CBC::new(c, p, g)) } 1 => go!(CFB::new(c, EmptyPadding::new(), g, 8)), _ => go!(OFB::new(c, g)) }
    });

    // PKCS #1 v1.5 encryption
    explore(ctx, "pkcs1-encrypt", 6, 80, &|v, f| {
        let bits = [128, 256, 512][v / 2];
        let (sk, k) = cached(bits, 2, 0).unwrap();
        let p: PKCS1<SHA1, Faulty> = PKCS1::new(SHA1::new(), f.clone(), KeyPair::from(sk), v % 2 == 1).unwrap();
        let m = fill(bits / 8 - 11 - if bits > 128 { 6 } else { 0 }, 3);
        Box::new(move |t, f| {
            let mut c = vec![7];
            t.step();
            if p.encrypt(&mut c, &m).is_err() { return Ok(false); }
            let em = k.raw(&Bn::from_be(&c)).to_be_len(k.k());
            let z = k.k() - m.len() - 1;
            if em[0] != 0 || em[1] != 2 || em[z] != 0 || em[z + 1..] != m[..] || em[2..z].iter().any(|&b| b == 0) { return Err(format!("encoded message {} is not 00 02 PS 00 M with all the padding", hx(&em))); }
            if !from_source(&em[2..z], &f.good()) { return Err(format!("padding {} does not come from the source", hx(&em[2..z]))); }
            Ok(true)
        })
    });
    // OAEP encryption
    explore(ctx, "oaep-encrypt", 4, 80, &|v, f| {
        let (bits, hs) = [(128, Hs::Toy(4)), (160, Hs::Toy(7)), (384, Hs::Md(0)), (512, Hs::Md(1))][v];
        let (sk, k) = cached(bits, 2, 0).unwrap();
        let o: OAEP<BoxD, Faulty> = OAEP::new(hs.make(), f.clone(), KeyPair::from(sk), vec![1, 2], v % 2 == 1).unwrap();
        let m = fill(3, 3);
        Box::new(move |t, f| {
            let mut c = vec![7];
            t.step();
            if o.encrypt(&mut c, &m).is_err() { return Ok(false); }
            let em = k.raw(&Bn::from_be(&c)).to_be_len(k.k());
            if oaep_decode(&|x| hs.h(x), hs.len(), &[1, 2], &em) != Some(m.clone()) { return Err(format!("encoded message {} is wrong", hx(&em))); }
            let seed = oaep_seed(hs, &em);
            if !from_source(&seed, &f.good()) { return Err(format!("seed {} does not come from the source", hx(&seed))); }
            Ok(true)
        })
    });
    // PSS signatures, with and without blinding
    explore(ctx, "pss-sign", 8, 80, &|v, f| {
        let (bits, hs, s) = [(128, Hs::Toy(4), None), (160, Hs::Toy(3), Some(0)), (256, Hs::Toy(7), Some(5)), (512, Hs::Md(1), None)][v / 2];
        let (sk, k) = cached(bits, 2, 0).unwrap();
        let sl = match s { None => hs.len(), Some(0) => (bits + 6) / 8 - hs.len() - 2, Some(x) => x };
        let mut p: PSS<BoxD, Faulty> = PSS::new(hs.make(), f.clone(), KeyPair::from(sk), s, v % 2 == 1).unwrap();
        let m = b"message".to_vec();
        Box::new(move |t, f| {
            let mut s = SignatureContent::from(vec![1u8]);
            t.step();
            if p.sign(&mut s, &m).is_err() { return Ok(false); }
            let em = Bn::from_be(s.as_slice()).powm(&k.e, &k.n).to_be_len((bits + 6) / 8);
            let salt = pss_salt(hs, &em, sl);
            if pss_encode(&|x| hs.h(x), hs.len(), &hs.h(&m), &salt, bits - 1) != Some(em.clone()) { return Err(format!("signature block {} does not have a salt of {} bytes", hx(&em), sl)); }
            if !from_source(&salt, &f.good()) { return Err(format!("salt {} does not come from the source", hx(&salt))); }
            t.step();
            if p.verify(&s, &m).is_err() { return Err("own signature refused".into()); }
            Ok(true)
        })
    });
    // blinded operations: PKCS #1 v1.5 signatures and decryption, OAEP decryption, the bare primitive
    explore(ctx, "blinding", 4 * 3, 80, &|v, f| {
        let bits = [384, 416, 512][v / 4];
        let (sk, k) = cached(bits, 2 + v / 8, 0).unwrap();
        match v % 4 {
            0 => {
                let mut p: PKCS1<SHA1, Faulty> = PKCS1::new(SHA1::new(), f.clone(), KeyPair::from(sk), true).unwrap();
                let want = k.raw(&Bn::from_be(&emsa_pkcs1("SHA1", &Hs::Md(1).h(b"message"), k.k()).unwrap())).to_be_len(k.k());
                Box::new(move |t, _| {
                    let mut s = SignatureContent::from(vec![1u8]);
                    t.step();
                    if p.sign(&mut s, b"message").is_err() { return Ok(false); }
                    if s.as_slice() != &want[..] { return Err(format!("signature {} instead of {}", hx(s.as_slice()), hx(&want))); }
                    Ok(true)
                })
            }
            1 => {
                let p: PKCS1<SHA1, Faulty> = PKCS1::new(SHA1::new(), f.clone(), KeyPair::from(sk), true).unwrap();
                let mut em = fill(k.k(), 3);
                em[0] = 0; em[1] = 2;
                for b in em[2..20].iter_mut() { *b |= 1; }
                em[20] = 0;
                let c = Bn::from_be(&em).powm(&k.e, &k.n).to_be_len(k.k());
                Box::new(move |t, _| {
                    let mut o = vec![1];
                    t.step();
                    if p.decrypt(&mut o, &c).is_err() { return Ok(false); }
                    if o != em[21..] { return Err(format!("decrypted to {}", hx(&o))); }
                    Ok(true)
                })
            }
            2 => {
                let hs = Hs::Toy(5);
                let p: OAEP<BoxD, Faulty> = OAEP::new(hs.make(), f.clone(), KeyPair::from(sk), vec![], true).unwrap();
                let em = vh::refs::rsa::oaep_encode(&|x| hs.h(x), 5, k.k(), &[], b"hello", &[9; 5]).unwrap();
                let c = Bn::from_be(&em).powm(&k.e, &k.n).to_be_len(k.k());
                Box::new(move |t, _| {
                    let mut o = vec![1];
                    t.step();
                    if p.decrypt(&mut o, &c).is_err() { return Ok(false); }
                    if o != b"hello" { return Err(format!("decrypted to {}", hx(&o))); }
                    Ok(true)
                })
            }
            _ => {
                let m = Bn::from_be(&fill(bits / 8 - 2, 5));
                let c = big(&m.powm(&k.e, &k.n));
                Box::new(move |t, f| {
                    t.step();
                    match if f.draws() % 2 == 0 { sk.decrypt(&c, Some(&mut f.clone())) } else { sk.decrypt_and_check(&c, Some(&mut f.clone())) } {
                        Err(_) => Ok(false),
                        Ok(x) => if bn(&x)? == m { Ok(true) } else { Err(format!("decrypted to {:#x}", x)) },
                    }
                })
            }
        }
    });
    // RSA key generation
    let lim = ctx.pick(120, 400);
    explore(ctx, "rsa-keys", 6, lim, &|v, _| {
        let (bits, np) = [(64, 2), (128, 2), (256, 2), (192, 3), (256, 4), (96, 3)][v];
        Box::new(move |t, f| {
            t.step();
            let sk = match PrivateKey::generate_multi_prime_key(np, bits, 4, &mut f.clone()) { Ok(sk) => sk, Err(_) => return Ok(false) };
            let k = vh::rsak::validate(&sk, np, bits)?;
            let w = (bits / np + 31) / 32;
            enough(f, np * w, "key")?;
            let good = f.good();
            for p in &k.primes {
                if p.bits() < bits / np { return Err(format!("prime {} of {} bits in a {}-bit key of {} primes", p.to_hex(), p.bits(), bits, np)); }
                let b = p.to_be();
                // all but the top bits and the low end are random words
                if b.len() > 4 && !from_source(&b[1..b.len() - 3], &good) { return Err(format!("prime {} does not come from the source", p.to_hex())); }
            }
            Ok(true)
        })
    });
    // DSA: keys and parameters
    let cases = ctx.pick(64, 160);
    ctx.each("dsa-domains", cases, |i, t| {
        let f = Faulty::new(11);
        // every early draw, the words of the first candidates of p, failing once or from then on
        let j = match i / 2 { j @ 0..=11 => j, j @ 12..=23 => (j - 12) * 7 + 12, j => (j - 23) * (j - 23) * 97 };
        if i % 2 == 0 { f.arm((0..j + 1).map(|x| x == j).collect(), None) } else { f.arm(vec![], Some(j)) }
        t.trace();
        t.step();
        type D = DSA<RawDigest, Faulty>;
        match D::l1024_n160_key(&mut f.clone()) {
            Err(_) => {}
            Ok(sk) => {
                let (d, x) = check_sk(&sk, 1024, 160).map_err(|e| format!("draw {} failing: {}", j, e))?;
                enough(&f, 5 + 32 + 5, "domain and key")?;
                let good = f.good();
                for (v, cut) in [(&d.q, 3), (&d.p, 21), (&x, 0)] { let b = v.to_be(); if !from_source(&b[1..b.len() - cut], &good) { return Err(format!("draw {} failing: {} does not come from the source", j, v.to_hex())); } }
            }
        }
        Ok(())
    });
    explore(ctx, "dsa-sign", 4, 40, &|v, f| {
        let d = match v { 0 => dom(8, 1, 20, 0), 1 => dom(40, 1, 80, 0), 2 => dom(96, 0, 200, 0), _ => fips(0) };
        let x = d.q.sub(&Bn::from_u64(5));
        let mut s = DSA::new_uncheck(RawDigest::new(20, 8), f.clone(), d.sk(&x)).unwrap();
        let h = fill(20, 3);
        let words = (d.q.bits() + 31) / 32;
        Box::new(move |t, f| {
            let mut sg = rcrypto::dsa::SignatureContent::new();
            t.step();
            if s.sign(&mut sg, &h).is_err() { return Ok(false); }
            let (r, q) = sg.to_bigint();
            let k = d.check(&x, &h, &bn(&r)?, &bn(&q)?)?;
            enough(f, words, "signature")?;
            if !from_source(&k.to_be()[1..], &f.good()) { return Err(format!("secret {} does not come from the source", k.to_hex())); }
            Ok(true)
        })
    });
    // elliptic curves
    let std4: Vec<(Curve, Vec<Pt>)> = standard().into_iter().map(|(_, _, c)| { let g = c.pow2_table(&c.g(), c.n.bits() + 1); (c, g) }).collect();
    let idx = |i: usize| if i == 4 { 0 } else if i == 5 { 1 } else { i };
    let std4 = &std4;
    let ok_key = move |i: usize, f: &Faulty, q: &Pt, d: Option<&Bn>| -> R {
        let (c, g) = &std4[idx(i)];
        if !c.on(q) || *q == Pt::Inf { return Err("public key is not on the curve".into()); }
        enough(f, (c.n.bits() + 31) / 32, "key")?;
        if let Some(d) = d {
            if c.mul_table(d, g) != *q { return Err(format!("public key does not belong to {}", d.to_hex())); }
            // the second octet is changed by the generator
            if !from_source(&d.to_be_len((c.n.bits() + 7) / 8)[2..], &f.good()) { return Err(format!("private key {} does not come from the source", d.to_hex())); }
        }
        Ok(())
    };
    explore(ctx, "ec-keys", 4, 40, &|v, _| {
        let g = generic(v);
        Box::new(move |t, f| {
            t.step();
            match g.generate_key(&mut f.clone()) {
                Err(_) => Ok(false),
                Ok(k) => { let s = format!("{}", k); let v3 = quoted(&s); let q = quoted(&format!("{}", k.public_key())); let d = v3.iter().find(|x| !q.contains(x)).cloned(); ok_key(v, f, &Pt::A(q[0].clone(), q[1].clone()), d.as_ref())?; Ok(true) }
            }
        })
    });
    explore(ctx, "ecdsa-keys", 6, 40, &|v, _| {
        Box::new(move |t, f| {
            t.step();
            match ECDSA::auto_generate_key(RawDigest::new(20, 8), f.clone(), Dy(curve(v))) {
                Err(_) => Ok(false),
                Ok(e) => { let q = quoted(&format!("{}", e.public_key())); ok_key(v, f, &Pt::A(q[0].clone(), q[1].clone()), None)?; Ok(true) }
            }
        })
    });
    explore(ctx, "ecdsa-sign", 6, 40, &|v, f| {
        let (c, g) = &std4[idx(v)];
        let d = c.n.sub(&Bn::from_u64(99));
        let q = c.mul_table(&d, g);
        let (x, y) = xy(&q);
        let mut e = ECDSA::new_unchcek(RawDigest::new(20, 8), f.clone(), Dy(curve(v)), EcPair::from(EcKey::new_uncheck(EcPub::new_uncheck(&x, &y), &big(&d)))).unwrap();
        let h = fill(20, 3);
        Box::new(move |t, f| {
            let mut sg = rcrypto::ecdsa::SignatureContent::new();
            t.step();
            if e.sign(&mut sg, &h).is_err() { return Ok(false); }
            let (r, s) = sg.to_bigint();
            let (r, s) = (bn(&r)?, bn(&s)?);
            let mut z = Bn::from_be(&h);
            if c.n.bits() < 160 { z = z.shr(160 - c.n.bits()); }
            let k = s.invm(&c.n).ok_or("s is 0")?.mulm(&z.add(&d.mul(&r)), &c.n);
            match c.mul_table(&k, g) { Pt::A(x, _) if x.rem(&c.n) == r => {} _ => return Err("not a signature".into()) }
            enough(f, ((c.p.bits() / 2).min(256)) / 32, "signature")?;
            Ok(true)
        })
    });
}
