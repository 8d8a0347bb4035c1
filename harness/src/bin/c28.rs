//! C28: every output replaces what the destination held, and the reported length is exact.
use rcrypto::cipher_mode::{DefaultCounter, DefaultInitialVec, InitialVec, CTR};
use rcrypto::dsa::{SignatureContent as DsaSig, DSA};
use rcrypto::ecdsa::{SignatureContent as EcSig, ECDSA};
use rcrypto::elliptic::{CurveP224, CurveP256, EllipticCurve, KeyPair as EcPair, PrivateKey as EcKey, PublicKey as EcPub};
use rcrypto::rsa::{KeyPair, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::sha::SHA1;
use rcrypto::sha3::{Shake128, Shake256};
use rcrypto::{Cipher, CryptoError, Digest, DigestXOF, Keccak, Signature, ZUCCipher, ZUCMac, CMAC, HMAC};
use vh::blk::Blk;
use vh::dsak::fips;
use vh::eck::{generic, nat};
use vh::engine::{self, hx, Ctx, R, T};
use vh::enumr::{dig, fill};
use vh::modes::{configs, BoxC, Cfg, Ciph, QIv, St, REAL};
use vh::refs::bn::Bn;
use vh::rsak::{big, cached, Hs};
use vh::scripted::Script;
use vh::toy::RawDigest;
use vh::zoo::{self, BoxD};

fn main() { engine::main("C28", run) }

type Out = Result<Option<usize>, String>;
/// the k-th call performs the k-th operation of a fixed sequence into the given destination
type Call = Box<dyn FnMut(usize, &mut Vec<u8>) -> Out>;
/// a sequence of operations on one object
struct Op { name: String, n: usize, dear: bool, make: Box<dyn Fn() -> Result<Call, String> + Sync + Send> }

fn s(e: CryptoError) -> String { format!("{}", e) }
fn op(name: String, n: usize, dear: bool, make: impl Fn() -> Result<Call, String> + Sync + Send + 'static) -> Op { Op { name, n, dear, make: Box::new(make) } }

/// encrypts, decrypts, is refused and encrypts again
fn block(name: String, mk: impl Fn() -> Box<dyn Blk> + Sync + Send + 'static) -> Op {
    op(name, 6, false, move || {
        let c = mk();
        let bs = c.bsz().unwrap();
        Ok(Box::new(move |k, d| match k {
            0 => c.e(d, &fill(bs, 3)).map(Some),
            1 => c.d(d, &fill(bs, 4)).map(Some),
            2 => c.e(d, &fill(bs - 1, 3)).map(Some),
            3 => c.d(d, &fill(bs + 1, 3)).map(Some),
            4 => c.d(d, &fill(bs, 3)).map(Some),
            _ => c.e(d, &fill(bs, 5)).map(Some),
        }))
    })
}
fn mode(cfg: Cfg) -> Op {
    op(cfg.name(), 8, false, move || {
        let bs = cfg.c.bs();
        let l = cfg.make(QIv::fixed(&fill(bs, 7))).map_err(s)?;
        let m = fill((2 * bs + cfg.unit() - 1) / cfg.unit() * cfg.unit(), 3);
        let c1 = cfg.enc(&*cfg.c.reference(), &fill(bs, 7), &m).ok_or("no reference")?;
        macro_rules! go { ($f:ident, $d:expr, $m:expr) => { match &l { vh::modes::Lib::Ecb(x) => x.$f($d, $m), vh::modes::Lib::Cbc(x) => x.$f($d, $m), vh::modes::Lib::Cfb(x) => x.$f($d, $m), vh::modes::Lib::Ofb(x) => x.$f($d, $m) }.map(Some).map_err(s) } }
        Ok(Box::new(move |k, d| match k {
            0 => go!(encrypt, d, &m),
            1 => go!(decrypt, d, &c1),
            2 => go!(encrypt, d, &m[..bs]),
            3 => go!(encrypt, d, &[]),
            4 => go!(decrypt, d, &c1[..bs - 1]),
            5 => go!(decrypt, d, &[]),
            6 => go!(encrypt, d, &m[..bs + 1]),
            _ => go!(decrypt, d, &c1),
        }))
    })
}
fn digest(name: String, dear: bool, mk: impl Fn() -> Result<Box<dyn Digest>, String> + Sync + Send + 'static) -> Op {
    op(name, 6, dear, move || {
        let mut h = mk()?;
        Ok(Box::new(move |k, d| {
            match k {
                0 => h.write(&fill(3, 3)),
                1 => {}
                2 => h.write(&fill(200, 4)),
                3 => h.reset(),
                4 => h.write(&fill(77, 5)),
                _ => h.write(&[]),
            }
            h.checksum(d);
            // the length a digest reports is its bit length
            Ok(Some((h.bits_len() + 7) / 8))
        }))
    })
}
fn sig<X: AsMut<Vec<u8>>>(sg: &mut X, d: &mut Vec<u8>, f: impl FnOnce(&mut X) -> Result<(), CryptoError>) -> Out {
    *sg.as_mut() = std::mem::take(d);
    let r = f(sg).map(|_| None).map_err(s);
    *d = std::mem::take(sg.as_mut());
    r
}
fn ec<C: EllipticCurve + Clone + 'static>(name: &str, mk: impl Fn() -> C + Sync + Send + 'static) -> Op {
    op(format!("ECDSA/{}", name), 3, true, move || {
        let c = mk();
        let d = Bn::from_u64(0x1234_5678_9abc_def1);
        let (x, y) = c.scalar_base_point(&nat(&d));
        let pk = EcPub::new_uncheck(&x, &y);
        let mut o = ECDSA::new_unchcek(RawDigest::new(20, 8), Script::stream(1), c, EcPair::from(EcKey::new_uncheck(pk, &big(&d)))).map_err(s)?;
        Ok(Box::new(move |k, d| { let mut sg = EcSig::new(); sig(&mut sg, d, |x| o.sign(x, &fill(5 + k, 3)).map(|_| ())) }))
    })
}
fn ops(t: bool) -> Vec<Op> {
    let mut v = vec![];
    for c in REAL { v.push(block(format!("{:?}", c), move || c.lib().0)); }
    #[cfg(feature = "portable")]
    for n in [16, 24, 32] { v.push(block(format!("portable AES-{}", 8 * n), move || Box::new(rcrypto_portable::AES::new(fill(n, 9)).ok().unwrap()))); }
    let mut cs = vec![Ciph::Aes(16), Ciph::Tdes];
    if t { cs = REAL.to_vec(); }
    cs.push(Ciph::Toy(3));
    for c in cs {
        for cfg in configs(c) { v.push(mode(cfg)); }
        {
            v.push(op(format!("{:?}/Ctr", c), 5, false, move || {
                let x = CTR::new(c.lib(), DefaultCounter::new(fill(c.bs(), 2), 8 * c.bs()).map_err(s)?).map_err(s)?;
                let bs = c.bs();
                Ok(Box::new(move |k, d| match k {
                    0 => x.encrypt(d, &fill(2 * bs + 1, 3)),
                    1 => x.decrypt(d, &fill(bs, 4)),
                    2 => x.encrypt(d, &[]),
                    3 => x.decrypt(d, &fill(1, 4)),
                    _ => x.encrypt(d, &fill(bs, 5)),
                }.map(Some).map_err(s)))
            }));
        }
    }
    v.push(op("ZUCCipher".into(), 6, false, || {
        let z = ZUCCipher::new(0x66035492, 0xf, false, [7; 16]);
        Ok(Box::new(move |k, d| match k {
            0 => z.encrypt(d, &fill(9, 3)),
            1 => z.decrypt(d, &fill(2, 3)),
            2 => z.encrypt(d, &[]),
            3 => z.encrypt(d, &fill(1, 4)),
            4 => z.decrypt(d, &fill(17, 5)),
            _ => z.encrypt(d, &fill(4, 5)),
        }.map(Some).map_err(s)))
    }));
    v.push(digest("ZUCMac".into(), false, || Ok(Box::new(ZUCMac::new(0x66035492, 0xf, false, [7; 16])))));
    for i in 0..zoo::md_family().len() {
        v.push(digest(zoo::md_family()[i].name.into(), false, move || Ok(Box::new(BoxD((zoo::md_family()[i].make)())))));
        v.push(digest(format!("HMAC/{}", zoo::md_family()[i].name), false, move || HMAC::new(fill(20, 2), BoxD((zoo::md_family()[i].make)())).map(|h| Box::new(h) as Box<dyn Digest>).map_err(s)));
    }
    for i in 0..zoo::sha3_family().len() {
        v.push(digest(zoo::sha3_family()[i].name.into(), true, move || Ok(Box::new(BoxD((zoo::sha3_family()[i].make)())))));
    }
    macro_rules! xof { ($t:ident) => {
        v.push(op(format!("{}, changing length", stringify!($t)), 6, true, || {
            let mut h = $t::new(64);
            h.write(b"xof");
            Ok(Box::new(move |k, d| {
                let n = [24, 4, 17, 400, 8, 1][k];
                h.set_digest_len(8 * n);
                h.checksum(d);
                Ok(Some(n))
            }))
        }));
    }; }
    xof!(Shake128);
    xof!(Shake256);
    for c in REAL { v.push(digest(format!("CMAC/{:?}", c), false, move || CMAC::new(c.lib()).map(|h| Box::new(h) as Box<dyn Digest>).map_err(s))); }
    for b in [25usize, 50, 100, 200, 400, 800, 1600] {
        v.push(op(format!("Keccak-p[{}]", b), 4, true, move || {
            let mut k = Keccak::new(b, 5).map_err(s)?;
            let n = (b + 7) / 8;
            Ok(Box::new(move |i, d| match i {
                0 => k.permutation(&fill(n, 3), d),
                1 => k.permutation(&vec![0; n], d),
                2 => k.permutation(&fill(n - 1, 4), d),
                _ => k.permutation(&fill(n, 5), d),
            // the width in bits is reported
            }.map(|w| Some((w + 7) / 8)).map_err(s)))
        }));
        v.push(op(format!("Keccak-p[{}] sponge", b), 5, true, move || {
            let mut k = Keccak::new(b, 4).map_err(s)?.sponge(b / 2).map_err(s)?;
            Ok(Box::new(move |i, d| {
                let (a, w) = [(0, 8), (9, 3 * b), (17, 5), (b, 1), (3, 16)][i];
                k.sponge(&fill((a + 7) / 8, 3), a, w, d);
                Ok(None)
            }))
        }));
    }
    for bs in [1usize, 3, 8, 16] {
        v.push(op(format!("IV source for {}-byte blocks", bs), 4, false, move || {
            let mut x = DefaultInitialVec::<BoxC, Script>::new(&Ciph::Toy(bs).lib(), Script::stream(3));
            Ok(Box::new(move |_, d| { x.initial_vec(d).map_err(s)?; Ok(Some(bs)) }))
        }));
    }
    for (bits, np) in [(512usize, 2usize), (521, 2), (600, 3)] {
        for blind in [false, true] {
            if bits != 512 && blind && !t { continue; }
            let tag = format!("{} bits, {} primes{}", bits, np, if blind { ", blinded" } else { "" });
            v.push(op(format!("OAEP {}", tag), 5, true, move || {
                let (sk, _) = cached(bits, np, 1)?;
                let k = (bits + 7) / 8;
                let o = OAEP::new_uncheck(Hs::Toy(3).make(), Script::stream(1), KeyPair::from(sk), vec![1, 2], blind).map_err(s)?;
                let mut cts: Vec<Vec<u8>> = vec![];
                for n in [9, 0, k - 8] { let mut c = vec![]; o.encrypt(&mut c, &fill(n, 3)).map_err(s)?; cts.push(c); }
                Ok(Box::new(move |i, d| match i {
                    0 => o.decrypt(d, &cts[0]),
                    1 => o.encrypt(d, &fill(4, 4)),
                    2 => o.decrypt(d, &cts[1]),
                    3 => o.decrypt(d, &cts[2]),
                    _ => o.encrypt(d, &[]),
                }.map(|_| None).map_err(s)))
            }));
            v.push(op(format!("PKCS1 {}", tag), 6, true, move || {
                let (sk, _) = cached(bits, np, 1)?;
                let k = (bits + 7) / 8;
                let mut o = PKCS1::new_uncheck(SHA1::new(), Script::stream(1), KeyPair::from(sk), blind).map_err(s)?;
                let mut cts: Vec<Vec<u8>> = vec![];
                for n in [9, 0, k - 11] { let mut c = vec![]; Cipher::encrypt(&o, &mut c, &fill(n, 3)).map_err(s)?; cts.push(c); }
                Ok(Box::new(move |i, d| match i {
                    0 => Cipher::decrypt(&o, d, &cts[0]).map(|_| None).map_err(s),
                    1 => Cipher::encrypt(&o, d, &fill(4, 4)).map(|_| None).map_err(s),
                    2 => Cipher::decrypt(&o, d, &cts[1]).map(|_| None).map_err(s),
                    3 => { let mut sg = SignatureContent::new(); sig(&mut sg, d, |x| Signature::sign(&mut o, x, &fill(30, 3)).map(|_| ())) }
                    4 => Cipher::decrypt(&o, d, &cts[2]).map(|_| None).map_err(s),
                    _ => { let mut sg = SignatureContent::new(); sig(&mut sg, d, |x| Signature::sign(&mut o, x, &[]).map(|_| ())) }
                }))
            }));
            v.push(op(format!("PSS {}", tag), 2, true, move || {
                let (sk, _) = cached(bits, np, 1)?;
                let mut o = PSS::new_uncheck(Hs::Toy(5).make(), Script::stream(1), KeyPair::from(sk), Some(4), blind).map_err(s)?;
                Ok(Box::new(move |i, d| { let mut sg = SignatureContent::new(); sig(&mut sg, d, |x| o.sign(x, &fill(7 * i, 3)).map(|_| ())) }))
            }));
        }
    }
    v.push(op("DSA".into(), 3, true, || {
        let x = Bn::from_u64(0x1234_5678_9abc_def1);
        let mut o = DSA::new_uncheck(RawDigest::new(20, 8), Script::stream(1), fips(0).sk(&x)).map_err(s)?;
        Ok(Box::new(move |k, d| { let mut sg = DsaSig::new(); sig(&mut sg, d, |x| o.sign(x, &fill(5 + k, 3)).map(|_| ())) }))
    }));
    v.push(ec("P-224", || CurveP224::new().unwrap()));
    v.push(ec("P-256", || CurveP256::new().unwrap()));
    v.push(ec("generic P-224", || generic(0)));
    v
}

/// a destination with the given content and room
fn dest(content: &[u8], room: usize) -> Vec<u8> {
    let mut d = Vec::with_capacity(content.len() + room);
    d.extend_from_slice(content);
    d
}
fn content(n: usize, kind: usize, out: &[u8]) -> Vec<u8> {
    match kind {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => fill(n, 6),
        _ => (0..n).map(|i| if out.is_empty() { 0x5a } else { out[i % out.len()] }).collect(),
    }
}
const ROOM: [usize; 4] = [0, 1, 100, 4096];

/// what every call of a sequence yields when each destination is new
fn base(o: &Op) -> Result<Vec<Result<Vec<u8>, String>>, String> {
    let mut f = (o.make)()?;
    let mut v = vec![];
    for k in 0..o.n {
        let mut d = vec![];
        let r = f(k, &mut d);
        v.push(match r {
            Ok(Some(n)) if n != d.len() => return Err(format!("{}: call {} reports {} bytes but delivers {}", o.name, k, n, d.len())),
            Ok(_) => Ok(d),
            Err(e) => Err(e),
        });
    }
    Ok(v)
}
/// one call into a destination, compared with what a new destination receives
fn call(t: &T, o: &Op, f: &mut Call, k: usize, d: &mut Vec<u8>, want: &Result<Vec<u8>, String>, what: &dyn Fn() -> String) -> R {
    t.step();
    let r = f(k, d);
    match (r, want) {
        (Ok(n), Ok(w)) => {
            t.state(&[d.clone(), vec![k as u8]].concat());
            if d != w { return Err(format!("{}: call {} into {} delivers {} ({} bytes), into a new buffer {} ({} bytes)", o.name, k, what(), hx(d), d.len(), hx(w), w.len())); }
            match n { Some(n) if n != d.len() => Err(format!("{}: call {} into {} reports {} bytes but delivers {}", o.name, k, what(), n, d.len())), _ => Ok(()) }
        }
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("{}: call {} into {} gives {:?}, into a new buffer {:?}", o.name, k, what(), a, b.as_ref().map(|x| x.len()))),
    }
}

fn run(ctx: &Ctx) {
    let th = ctx.thorough;
    let all = ops(th);
    ctx.note(format!("{} operation sequences", all.len()));
    // one call of the sequence into every destination, the others into new ones
    let (all_r, n) = (&all, all.len() as u64);
    ctx.par("one-destination", n, |i, t| {
        let o = &all_r[i as usize];
        let b = base(o)?;
        for k in 0..o.n {
            let out = match &b[k] { Ok(x) => x.clone(), Err(_) => vec![] };
            let l = out.len();
            let lens: Vec<usize> = if o.dear && !t.thorough() { let mut v = vec![0, 1, l.saturating_sub(1), l, l + 1, 2 * l, 2 * l + 5]; v.sort(); v.dedup(); v } else { (0..=2 * l + 5).collect() };
            for &n in &lens {
                for kind in 0..4 {
                    for (ri, &room) in ROOM.iter().enumerate() {
                        if o.dear && !t.thorough() && ri % 2 == 1 { continue; }
                        let mut f = (o.make)()?;
                        for j in 0..o.n {
                            let mut d = if j == k { dest(&content(n, kind, &out), room) } else { vec![] };
                            call(t, o, &mut f, j, &mut d, &b[j], &|| if j == k { format!("a buffer holding {} bytes of kind {} with room for {} more", n, kind, room) } else { format!("a new buffer after call {} used one holding {} bytes of kind {} with room for {} more", k, n, kind, room) })?;
                            // what follows cannot notice the destination of a call two steps back unless the next one does
                            if j > k + 1 { break; }
                        }
                        t.trace();
                    }
                }
            }
        }
        Ok(())
    });
    // every assignment of destinations to the calls of a sequence
    ctx.par("every-assignment", n, |i, t| {
        let o = &all_r[i as usize];
        let b = base(o)?;
        let a = if o.dear { 2u64 } else { 3 };
        for mut w in 0..a.pow(o.n as u32) {
            let mut f = (o.make)()?;
            for j in 0..o.n {
                let x = dig(&mut w, a);
                let l = match &b[j] { Ok(x) => x.len(), Err(_) => 4 };
                let mut d = match x { 0 => vec![], 1 => dest(&vec![0xc3; l + 3], 64), _ => dest(&vec![0x3c; l / 2], 0) };
                call(t, o, &mut f, j, &mut d, &b[j], &|| format!("destination {} of a mixed history", x))?;
            }
            t.trace();
        }
        Ok(())
    });
    // the output of one sequence is the destination of the next
    ctx.par("shared-destination", n * n, |i, t| {
        let (p, q) = (&all_r[(i / n) as usize], &all_r[(i % n) as usize]);
        if p.dear && q.dear && !t.thorough() && (i / n + i % n) % 4 != 0 { return Ok(()); }
        let (bp, bq) = (base(p)?, base(q)?);
        let mut d = vec![];
        let (mut f, mut g) = ((p.make)()?, (q.make)()?);
        for k in 0..p.n.max(q.n) {
            if k < p.n { call(t, p, &mut f, k, &mut d, &bp[k], &|| format!("a buffer shared with {}", q.name))?; }
            if k < q.n { call(t, q, &mut g, k, &mut d, &bq[k], &|| format!("a buffer shared with {}", p.name))?; }
        }
        t.trace();
        Ok(())
    });
    // collecting appends
    let mut cfgs = vec![];
    for c in [Ciph::Aes(16), Ciph::Des, Ciph::Toy(3)] { cfgs.extend(configs(c).into_iter().map(Some).map(|x| (c, x))); cfgs.push((c, None)); }
    let cf = &cfgs;
    ctx.each("collecting-appends", cfgs.len() * 2, |i, t| {
        let ((c, cfg), enc) = (cf[i / 2], i % 2 == 0);
        let bs = c.bs();
        let mk = || -> Result<Box<dyn St>, String> {
            Ok(match cfg {
                Some(g) => g.make(QIv::fixed(&fill(bs, 7))).map_err(s)?.stream(enc),
                None => { let x = CTR::new(c.lib(), DefaultCounter::new(fill(bs, 2), 8 * bs).map_err(s)?).map_err(s)?; if enc { Box::new(x.encrypt_stream()) } else { Box::new(x.decrypt_stream()) } }
            })
        };
        let u = cfg.map_or(1, |g| g.unit());
        let m = fill((3 * bs + u - 1) / u * u, 3);
        let input = match cfg { Some(g) if !enc => g.enc(&*c.reference(), &fill(bs, 7), &m).ok_or("no reference")?, _ => m };
        // pieces of each length, collected or not
        for piece in 1..=2 * bs + 1 {
            let ws: Vec<&[u8]> = input.chunks(piece).collect();
            let k = ws.len();
            let want = {
                let mut x = mk()?;
                let mut o = vec![];
                let mut after = vec![];
                for w in &ws { x.w(w, Some(&mut o))?; after.push(o.clone()); }
                x.f(Some(&mut o))?;
                after.push(o.clone());
                after
            };
            let masks = if k <= 6 { 1u64 << k } else { 64 };
            for mask in 0..masks {
                for n in [0usize, 1, bs, 2 * bs + 3] {
                    for kind in [1usize, 2] {
                        for room in [0usize, 1, 4096] {
                            let pre = content(n, kind, &[]);
                            let mut x = mk()?;
                            let mut o = dest(&pre, room);
                            for (j, w) in ws.iter().enumerate() {
                                let take = mask >> (j % 6) & 1 == 1;
                                x.w(w, if take { Some(&mut o) } else { None })?;
                                t.step();
                                if take && (o[..n] != pre[..] || o[n..] != want[j][..]) { return Err(format!("{:?}: after writing {} pieces of {} bytes the collected output after {} earlier bytes is {} instead of {}", cfg.map(|g| g.name()), j + 1, piece, n, hx(&o), hx(&want[j]))); }
                            }
                            x.f(Some(&mut o))?;
                            t.step();
                            t.trace();
                            t.state(&[&o[..], &[piece as u8]].concat());
                            if o[..n] != pre[..] || o[n..] != want[k][..] { return Err(format!("{:?}: pieces of {} bytes collected by mask {:x}: output after {} earlier bytes is {} instead of {}", cfg.map(|g| g.name()), piece, mask, n, hx(&o), hx(&want[k]))); }
                        }
                    }
                }
            }
        }
        Ok(())
    });
}
