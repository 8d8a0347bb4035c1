//! C33: objects do not influence each other: a fresh process in which two objects are used side by side
//! against fresh processes in which each is used alone.
use rcrypto::cipher_mode::{Counter, DefaultCounter, DefaultInitialVec, InitialVec, CTR};
use rcrypto::dsa::{SignatureContent as DsaSig, DSA};
use rcrypto::ecdsa::{SignatureContent as EcSig, ECDSA};
use rcrypto::elliptic::{CurveP224, CurveP256, EllipticCurve, KeyPair as EcPair, PrivateKey as EcKey, PublicKey as EcPub};
use rcrypto::rsa::{KeyPair, PublicKey, SignatureContent, OAEP, PKCS1, PSS};
use rcrypto::sha::{SHA1, SHA512T};
use rcrypto::sha3::{Shake128, Shake256};
use rcrypto::{Cipher, Digest, DigestXOF, Keccak, Signature, ZUCCipher, ZUCMac, AES, CMAC, DES, HMAC, SM4, TDES, ZUC};
use std::collections::BTreeMap;
use std::process::Command;
use std::sync::{mpsc, Mutex};
use vh::blk::Blk;
use vh::dsak::{dom, fips};
use vh::eck::{b, generic, nat};
use vh::engine::{self, guarded, hash64, hx, Ctx, R};
use vh::enumr::{dig, fill};
use vh::modes::{BoxC, Cfg, Ciph, Lib, Mode, QIv, St};
use vh::refs::bn::Bn;
use vh::rsak::{big, cached, Hs};
use vh::scripted::Script;
use vh::toy::RawDigest;
use vh::zoo::{self, BoxD};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("alone") => alone(num(&a[2]), num(&a[3])),
        Some("pair") => pair(&a[2..]),
        Some("crowd") => crowd(&a[2..]),
        _ => engine::main("C33", run),
    }
}
fn num(s: &str) -> usize { s.parse().unwrap() }

/// the k-th operation of a fixed sequence
type Call = Box<dyn FnMut(usize) -> Vec<u8>>;
/// a kind of object: related parameter sets and a fixed sequence of operations
struct Fam { name: String, vars: usize, n: usize, dear: bool, make: Box<dyn Fn(usize) -> Call + Sync + Send> }
fn fam(name: impl Into<String>, vars: usize, n: usize, dear: bool, make: impl Fn(usize) -> Call + Sync + Send + 'static) -> Fam { Fam { name: name.into(), vars, n, dear, make: Box::new(make) } }
fn res<E>(r: Result<usize, E>, d: Vec<u8>) -> Vec<u8> { if r.is_ok() { [vec![1], d].concat() } else { vec![0] } }
/// bytes of which variant v > 0 differs from variant 0 in byte v - 1 only
fn near(n: usize, k: usize, v: usize) -> Vec<u8> {
    let mut x = fill(n, k);
    if v > 0 { x[(v - 1) % n] ^= 0x14; }
    x
}
fn a16(x: &[u8]) -> [u8; 16] { let mut a = [0; 16]; a.copy_from_slice(x); a }
fn a8(x: &[u8]) -> [u8; 8] { let mut a = [0; 8]; a.copy_from_slice(x); a }

fn blocks(c: Box<dyn Blk>) -> Call {
    let bs = c.bsz().unwrap();
    Box::new(move |k| {
        let mut d = vec![];
        let r = match k { 0 => c.e(&mut d, &near(bs, 3, 0)), 1 => c.d(&mut d, &near(bs, 3, 0)), 2 => c.e(&mut d, &near(bs, 3, bs)), _ => c.d(&mut d, &near(bs, 3, 1)) };
        res(r, d)
    })
}
/// a message in two parts, another one, one after a reset; messages that differ little between the variants
fn hashing(mut h: Box<dyn Digest>, len: usize, v: usize) -> Call {
    Box::new(move |k| {
        let (mut d, m) = (vec![], near(len, 3, v));
        match k { 0 => { h.write(&m[..len - 5]); return vec![h.bits_len() as u8]; } 1 => h.write(&m[len - 5..]), 2 => h.write(&near(len, 3, if v == 0 { 1 } else { 0 })), _ => { h.reset(); h.write(&fill(3, v)); } }
        h.checksum(&mut d);
        d
    })
}
/// two writes of which the first is not collected, the end, and the beginning of another message
fn streaming(mut s: Box<dyn St>) -> Call {
    Box::new(move |k| {
        let mut d = vec![];
        let r = match k { 0 => s.w(&fill(21, 3), None), 1 => s.w(&fill(27, 4), Some(&mut d)), 2 => s.f(Some(&mut d)), _ => { s.r(); s.w(&fill(35, 5), Some(&mut d)) } };
        res(r.map(|_| 0), d)
    })
}
fn moding(l: Lib, bs: usize) -> Call {
    Box::new(move |k| match match k { 0 => l.enc(&near(2 * bs, 3, 0)), 1 => l.dec(&near(2 * bs, 3, 0)), 2 => l.enc(&near(2 * bs, 3, 2 * bs)), _ => l.dec(&near(2 * bs, 3, 1)) } { Ok(x) => [vec![1], x].concat(), Err(_) => vec![0] })
}
fn curve<C: EllipticCurve + 'static>(c: C, v: usize, bits: usize) -> Call {
    let n = (bits + 7) / 8;
    Box::new(move |k| {
        let s = nat(&Bn::from_be(&near(n - 1, 3, [0, 1, n - 1][v])));
        let (x, y) = if k == 0 { (big(&b(0)), big(&b(0))) } else { c.scalar_base_point(&nat(&b(3 + v as u64))) };
        // the same factor on every curve
        let all = nat(&Bn::from_be(&near(27, 5, [0, 1, 27][v])));
        let (x, y) = match k { 0 => c.scalar_base_point(&all), 1 => c.scalar(&x, &y, &s), 2 => c.double(&x, &y), _ => c.add(&x, &y, &x, &y) };
        format!("{:x} {:x}", x, y).into_bytes()
    })
}
fn ec<C: EllipticCurve + Clone + 'static>(c: C, v: usize) -> Call {
    let d = b(if v == 1 { 0x1234_5678_9abc_def2 } else { 0x1234_5678_9abc_def1 });
    let (x, y) = c.scalar_base_point(&nat(&d));
    let mut o = ECDSA::new_unchcek(RawDigest::new(20, 8), Script::stream(if v == 2 { 2 } else { 1 }), c, EcPair::from(EcKey::new_uncheck(EcPub::new_uncheck(&x, &y), &big(&d)))).ok().unwrap();
    Box::new(move |k| {
        let (mut s, m) = (EcSig::new(), near(20, 3, if k == 1 { 20 } else { 0 }));
        if k < 2 { let r = o.sign(&mut s, &m).map(|_| 0); res(r, AsRef::<Vec<u8>>::as_ref(&s).clone()) } else { s.set(big(&b(77)), big(&b(78 + k as u64))); vec![o.verify(&s, &m).is_ok() as u8] }
    })
}

fn fams() -> Vec<Fam> {
    let mut f = vec![];
    for n in [16usize, 24, 32] { f.push(fam(format!("AES-{}", 8 * n), n + 1, 4, false, move |v| blocks(Box::new(AES::new(near(n, 9, v)).ok().unwrap())))); }
    f.push(fam("DES", 9, 4, false, |v| blocks(Box::new(DES::new(a8(&near(8, 9, v)))))));
    f.push(fam("TDES", 25, 4, false, |v| { let k = near(24, 9, v); blocks(Box::new(TDES::new(a8(&k[..8]), a8(&k[8..16]), a8(&k[16..])))) }));
    f.push(fam("SM4", 17, 4, false, |v| blocks(Box::new(SM4::from_slice(&near(16, 9, v)).ok().unwrap()))));
    // hashes: message, and message length below and above a block
    for i in 0..zoo::md_family().len() {
        f.push(fam(zoo::md_family()[i].name, 5, 4, false, move |v| hashing(Box::new(BoxD((zoo::md_family()[i].make)())), [20, 20, 200, 200, 64][v], [0, 20, 0, 200, 1][v])));
        f.push(fam(format!("HMAC/{}", zoo::md_family()[i].name), 7, 4, false, move |v| {
            // key, key length on both sides of the block, message
            let key = match v { 0 => near(20, 2, 0), 1 => near(20, 2, 1), 2 => near(20, 2, 20), 3 => near(19, 2, 0), 4 => near(200, 2, 0), 5 => near(200, 2, 200), _ => near(20, 2, 0) };
            hashing(Box::new(HMAC::new(key, BoxD((zoo::md_family()[i].make)())).ok().unwrap()), 30, if v == 6 { 30 } else { 0 })
        }));
    }
    for i in 0..zoo::sha3_family().len() { f.push(fam(zoo::sha3_family()[i].name, 3, 4, true, move |v| hashing(Box::new(BoxD((zoo::sha3_family()[i].make)())), [20, 20, 300][v], [0, 20, 0][v]))); }
    f.push(fam("SHA-512/t", 12, 4, false, |v| hashing(Box::new(SHA512T::new([1, 8, 9, 100, 101, 200, 224, 225, 256, 257, 511, 300][v]).unwrap()), 20, 0)));
    macro_rules! xof { ($t:ident) => { f.push(fam(format!("{} lengths", stringify!($t)), 5, 4, true, |v| {
        let mut h = $t::new([64, 72, 64, 2000, 2008][v]);
        let m = near(20, 3, if v == 2 { 20 } else { 0 });
        Box::new(move |k| { match k { 0 => h.write(&m), 1 => h.set_digest_len(8 * (v + 3)), 2 => { h.reset(); h.write(&[7]) } _ => h.set_digest_len(1000) } let mut d = vec![]; h.checksum(&mut d); d })
    })); } }
    xof!(Shake128);
    xof!(Shake256);
    for c in [Ciph::Aes(16), Ciph::Tdes] {
        let kl = if c == Ciph::Tdes { 24 } else { 16 };
        f.push(fam(format!("CMAC/{:?}", c), kl + 3, 4, false, move |v| {
            let k = near(kl, 9, if v > kl { 0 } else { v });
            let x: Box<dyn Blk> = if kl == 16 { Box::new(AES::new(k).ok().unwrap()) } else { Box::new(TDES::new(a8(&k[..8]), a8(&k[8..16]), a8(&k[16..]))) };
            let len = if v == kl + 2 { 32 } else { 37 };
            hashing(Box::new(CMAC::new(BoxC(x)).ok().unwrap()), len, if v == kl + 1 { len } else { 0 })
        }));
    }
    // ZUC: every byte of key and IV, every parameter
    f.push(fam("ZUC", 33, 4, false, |v| {
        let (k, i) = (near(16, 2, if v <= 16 { v } else { 0 }), near(16, 4, if v > 16 { v - 16 } else { 0 }));
        let mut z = ZUC::new(a16(&k), a16(&i));
        Box::new(move |n| { if n == 2 { z.set(a16(&k), a16(&i)); } (0..3).flat_map(|_| z.zuc().to_be_bytes().to_vec()).collect() })
    }));
    fn par(v: usize) -> (u32, u8, bool, [u8; 16]) { (if (17..21).contains(&v) { 0x1234_5678 ^ (1 << (8 * (v - 17))) } else { 0x1234_5678 }, if v == 21 { 9 } else if v == 22 { 24 } else { 8 }, v == 23, a16(&near(16, 2, if v < 17 { v } else { 0 }))) }
    f.push(fam("ZUCCipher", 24, 4, false, |v| {
        let (c, br, d, k) = par(v);
        let mut z = ZUCCipher::new(c, br, d, k);
        Box::new(move |n| { let mut o = vec![]; if n == 2 { z.reset(); } let r = if n == 1 { z.decrypt(&mut o, &fill(9, 3)) } else { z.encrypt(&mut o, &fill(6 + n, 3)) }; res(r, o) })
    }));
    f.push(fam("ZUCMac", 25, 4, false, |v| { let (c, br, d, k) = par(v % 24); hashing(Box::new(ZUCMac::new(c, br, d, k)), 21, if v == 24 { 21 } else { 0 }) }));
    // modes: cipher key, IV, cipher kind
    for (m, pad) in [(Mode::Ecb, true), (Mode::Ecb, false), (Mode::Cbc, true), (Mode::Cbc, false), (Mode::Cfb(1), true), (Mode::Cfb(8), false), (Mode::Cfb(16), false), (Mode::Ofb, false)] {
        f.push(fam(format!("AES/{:?}/{}", m, pad), 33, 4, false, move |v| {
            let g = Cfg { c: Ciph::Aes(16), m, pad };
            let key = near(16, 9, if v < 17 { v } else { 0 });
            moding(g.make_with(BoxC(Box::new(AES::new(key).ok().unwrap())), QIv::fixed(&near(16, 7, if v >= 17 { v - 16 } else { 0 }))).ok().unwrap(), 16)
        }));
    }
    for e in [true, false] {
        let dir = if e { "encrypting" } else { "decrypting" };
        for (m, pad) in [(Mode::Ecb, true), (Mode::Cbc, true), (Mode::Cbc, false), (Mode::Cfb(1), true), (Mode::Cfb(8), false), (Mode::Ofb, false)] {
            f.push(fam(format!("AES/{:?}/{} {} stream", m, pad, dir), 33, 4, false, move |v| {
                let g = Cfg { c: Ciph::Aes(16), m, pad };
                let key = near(16, 9, if v < 17 { v } else { 0 });
                streaming(g.make_with(BoxC(Box::new(AES::new(key).ok().unwrap())), QIv::fixed(&near(16, 7, if v >= 17 { v - 16 } else { 0 }))).ok().unwrap().stream(e))
            }));
        }
        f.push(fam(format!("AES/CTR {} stream", dir), 33, 4, false, move |v| {
            let key = near(16, 9, if v < 17 { v } else { 0 });
            let x = CTR::new(BoxC(Box::new(AES::new(key).ok().unwrap())), DefaultCounter::new(near(16, 7, if v >= 17 { v - 16 } else { 0 }), 128).ok().unwrap()).ok().unwrap();
            streaming(if e { Box::new(x.encrypt_stream()) } else { Box::new(x.decrypt_stream()) })
        }));
    }
    f.push(fam("AES/CTR", 33, 4, false, |v| {
        let key = near(16, 9, if v < 17 { v } else { 0 });
        let x = CTR::new(BoxC(Box::new(AES::new(key).ok().unwrap())), DefaultCounter::new(near(16, 7, if v >= 17 { v - 16 } else { 0 }), 128).ok().unwrap()).ok().unwrap();
        Box::new(move |k| { let mut d = vec![]; let r = if k % 2 == 0 { x.encrypt(&mut d, &fill(20, k)) } else { x.decrypt(&mut d, &fill(33, k)) }; res(r, d) })
    }));
    f.push(fam("counter", 6, 4, false, |v| {
        let mut x = DefaultCounter::new([vec![0xff, 0xfe], vec![0xff, 0xfd], vec![0, 0xfe], vec![1], vec![0xff; 4], vec![0xff; 9]][v].clone(), [16, 16, 16, 12, 32, 72][v]).ok().unwrap();
        Box::new(move |k| { if k == 2 { x.reset(); } let mut d = x.next().cloned().unwrap_or_default(); d.extend(x.next().cloned().unwrap_or_default()); d.push(x.bits_len() as u8); d })
    }));
    f.push(fam("IV source", 6, 4, false, |v| {
        let mut x = DefaultInitialVec::<BoxC, Script>::new(&Ciph::Toy([8, 8, 16, 1, 3, 40][v]).lib(), Script::stream([1, 2, 1, 1, 1, 1][v]));
        Box::new(move |_| { let mut d = vec![]; let r = x.initial_vec(&mut d).map(|_| 0); res(r, d) })
    }));
    for w in [25usize, 200, 1600] {
        f.push(fam(format!("Keccak-p[{}]", w), 4, 4, true, move |v| {
            let mut k = Keccak::new(w, [5, 6, 24, 30][v]).ok().unwrap();
            let n = (w + 7) / 8;
            Box::new(move |i| { let mut d = vec![]; let mut s = near(n, 3, [0, 1, n - 1, 0][i]); if w == 25 { s[3] &= 1; } let r = k.permutation(&s, &mut d); res(r, d) })
        }));
        f.push(fam(format!("Keccak-p[{}] sponge", w), 4, 4, true, move |v| {
            let mut k = Keccak::new(w, [4, 5, 4, 4][v]).ok().unwrap().sponge([w / 2, w / 2, w / 2 + 1, w / 4][v]).ok().unwrap();
            Box::new(move |i| { let mut d = vec![]; k.sponge(&fill(9, 3), 9 + 13 * i, 3 * w + i, &mut d); d })
        }));
    }
    // RSA: key, label, hash, random source
    f.push(fam("RSA keys", 6, 4, true, |v| {
        let (sk, k) = cached([512, 512, 513, 600, 64, 64][v], [2, 2, 2, 3, 2, 3][v], [1, 2, 1, 1, 1, 1][v]).unwrap();
        let m = big(&k.n.shr(1));
        let mut rd = Script::stream(5);
        Box::new(move |i| match i { 0 => format!("{:x}", sk.public_key().encrypt(&m)), 1 => format!("{:x}", sk.decrypt::<Script>(&m, None).ok().unwrap()), 2 => format!("{:x}", sk.decrypt(&m, Some(&mut rd)).ok().unwrap()), _ => format!("{}", sk) }.into_bytes())
    }));
    f.push(fam("RSA public keys", 6, 2, false, |v| {
        let n = Bn::from_be(&near(40, 3, [0, 1, 40, 0, 0, 20][v])).add(&b(if v < 3 { 0 } else { 2 }));
        let pk = PublicKey::from_bigint(&big(&n), &big(&b([3, 3, 3, 17, 65537, 3][v]))).ok().unwrap();
        Box::new(move |i| format!("{:x}", pk.encrypt(&big(&Bn::from_be(&near(39, 4, [0, 39][i]))))).into_bytes())
    }));
    // the last two: different hashes of equal length
    let twins: Vec<usize> = ["SHA256", "SM3"].iter().map(|n| zoo::md_family().iter().position(|m| m.name == *n).unwrap()).collect();
    let tw = twins.clone();
    f.push(fam("OAEP", 8, 4, true, move |v| {
        let (sk, _) = cached(if v > 5 { 640 } else { 512 }, 2, if v == 1 { 2 } else { 1 }).unwrap();
        let h = if v > 5 { Hs::Md(tw[v - 6]) } else if v == 2 { Hs::Toy(4) } else if v == 5 { Hs::Md(1) } else { Hs::Toy(3) };
        let o = OAEP::new_uncheck(h.make(), Script::stream(if v == 3 { 2 } else { 1 }), KeyPair::from(sk), if v == 4 { vec![1, 3] } else { vec![1, 2] }, false).ok().unwrap();
        let mut last = vec![];
        Box::new(move |i| { let mut d = vec![]; let r = if i % 2 == 0 { let r = o.encrypt(&mut d, &fill(9 + i, 3)); last = d.clone(); r.map(|_| 0) } else { o.decrypt(&mut d, &last).map(|_| 0) }; res(r, d) })
    }));
    f.push(fam("PKCS1", 4, 4, true, |v| {
        let (sk, _) = cached(512, 2, if v == 1 { 2 } else { 1 }).unwrap();
        let mut o = PKCS1::new_uncheck(SHA1::new(), Script::stream(if v == 2 { 2 } else { 1 }), KeyPair::from(sk), v == 3).ok().unwrap();
        let mut last = vec![];
        Box::new(move |i| match i {
            0 => { let mut d = vec![]; let r = Cipher::encrypt(&o, &mut d, &fill(9, 3)).map(|_| 0); last = d.clone(); res(r, d) }
            1 => { let mut d = vec![]; let r = Cipher::decrypt(&o, &mut d, &last).map(|_| 0); res(r, d) }
            _ => { let mut s = SignatureContent::new(); let r = Signature::sign(&mut o, &mut s, &fill(9, i)).map(|_| 0); let w = Signature::verify(&mut o, &s, &fill(9, 3)).is_ok(); res(r, [s.as_slice(), &[w as u8]].concat()) }
        })
    }));
    let tw = twins.clone();
    f.push(fam("PSS", 7, 3, true, move |v| {
        let (sk, _) = cached(if v > 4 { 640 } else { 512 }, 2, if v == 1 { 2 } else { 1 }).unwrap();
        let mut o = PSS::new_uncheck(if v > 4 { Hs::Md(tw[v - 5]) } else { Hs::Toy(if v == 4 { 6 } else { 5 }) }.make(), Script::stream(if v == 2 { 2 } else { 1 }), KeyPair::from(sk), Some(if v == 3 { 5 } else { 4 }), false).ok().unwrap();
        Box::new(move |i| { let mut s = SignatureContent::new(); let r = o.sign(&mut s, &fill(9, i)).map(|_| 0); let w = o.verify(&s, &fill(9, 1)).is_ok(); res(r, [s.as_slice(), &[w as u8]].concat()) })
    }));
    f.push(fam("DSA", 5, 4, true, |v| {
        let d = match v { 3 => dom(64, 0, 128, 0), 4 => dom(64, 0, 128, 1), _ => fips(0) };
        let mut o = DSA::new_uncheck(RawDigest::new(20, 8), Script::stream(if v == 2 { 2 } else { 1 }), d.sk(&b(if v == 1 { 0x1234_5679 } else { 0x1234_5678 }))).ok().unwrap();
        Box::new(move |k| {
            let (mut s, m) = (DsaSig::new(), near(20, 3, if k == 1 { 20 } else { 0 }));
            if k < 2 { let r = o.sign(&mut s, &m).map(|_| 0); res(r, AsRef::<Vec<u8>>::as_ref(&s).clone()) } else { s.set(big(&b(77)), big(&b(78 + k as u64))); vec![o.verify(&s, &m).is_ok() as u8] }
        })
    }));
    f.push(fam("ECDSA/P-224", 3, 4, true, |v| ec(CurveP224::new().unwrap(), v)));
    f.push(fam("ECDSA/P-256", 3, 4, true, |v| ec(CurveP256::new().unwrap(), v)));
    f.push(fam("ECDSA/generic", 6, 3, true, |v| ec(generic(v / 3), v % 3)));
    f.push(fam("P-224", 3, 4, true, |v| curve(CurveP224::new().unwrap(), v, 224)));
    f.push(fam("P-256", 3, 4, true, |v| curve(CurveP256::new().unwrap(), v, 256)));
    f.push(fam("generic curves", 8, 4, true, |v| curve(generic(v / 2), v % 2, [224, 256, 384, 521][v / 2])));
    f
}

/// step 0 makes the object, step k performs operation k - 1
struct Run<'a> { f: &'a Fam, v: usize, o: Option<Call> }
impl Run<'_> {
    fn step(&mut self, k: usize) -> Vec<u8> {
        guarded(|| if k == 0 { self.o = Some((self.f.make)(self.v)); vec![] } else { match &mut self.o { Some(o) => o(k - 1), None => vec![] } }).unwrap_or_else(|e| format!("panic {}", e).into_bytes())
    }
}
fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
fn h(b: &[u8]) -> u64 { hash64(7, b) }

fn alone(f: usize, v: usize) {
    quiet();
    let fs = fams();
    let mut r = Run { f: &fs[f], v, o: None };
    for k in 0..=fs[f].n { let x = r.step(k); println!("{:x} {}", h(&x), hx(&x)); }
}
/// all orders of na steps of the first and nb steps of the second object (bit set: second)
fn orders(na: usize, nb: usize, few: bool) -> Vec<u32> {
    let l = na + nb;
    let all: Vec<u32> = (0..1u32 << l).filter(|w| w.count_ones() as usize == nb).collect();
    if !few { return all; }
    // one after the other, made together and then one after the other, in turn
    let first: u32 = (0..nb).map(|i| 1 << (na + i)).sum();
    let second: u32 = (0..nb).map(|i| 1 << i).sum();
    let turn: u32 = all.iter().copied().max_by_key(|w| (0..l - 1).filter(|i| (w >> i & 1) != (w >> (i + 1) & 1)).count()).unwrap();
    let made: u32 = 2 | (0..nb - 1).map(|i| 1 << (na + 1 + i)).sum::<u32>();
    vec![first, second, turn, made]
}
/// pair F1 V1 F2 V2 (0 all orders, but few with threads; 1 few; 2 all) hashes…: prints the number of steps made or what was different
fn pair(a: &[String]) {
    quiet();
    let fs = fams();
    let (fa, va, fb, vb, few) = (num(&a[0]), num(&a[1]), num(&a[2]), num(&a[3]), num(&a[4]) == 1);
    let want: Vec<u64> = a[5..].iter().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    let (na, nb) = (fs[fa].n + 1, fs[fb].n + 1);
    let mut steps = 0u64;
    // the objects stay or go after their last step
    let passes: &[(bool, bool)] = if few { &[(false, false), (true, true)] } else { &[(false, false), (false, true), (true, false)] };
    for &(threads, gone) in passes {
        for w in orders(na, nb, few || threads && num(&a[4]) == 0) {
            let mut i = [0usize; 2];
            let told = |second: bool, k: usize, x: &[u8]| {
                if h(x) == want[if second { na + k } else { k }] { return; }
                println!("different {} object, {} yields {} (order {:0w$b} from the right, 1 = second object, first step makes it{})", if second { "second" } else { "first" }, if k == 0 { "making it".into() } else { format!("operation {}", k) }, hx(x), w, if threads { ", one thread per object" } else { "" }, w = na + nb);
                std::process::exit(0);
            };
            if threads {
                // each object lives in its own thread; the order of the steps is enforced
                std::thread::scope(|sc| {
                    let mut chans = vec![];
                    for (f, v) in [(fa, va), (fb, vb)] {
                        let (tx, rx) = mpsc::channel::<usize>();
                        let (ty, ry) = mpsc::channel::<Vec<u8>>();
                        let fm = &fs[f];
                        sc.spawn(move || { let mut r = Run { f: fm, v, o: None }; while let Ok(k) = rx.recv() { let x = r.step(k); if gone && k == fm.n { r.o = None; } if ty.send(x).is_err() { return; } } });
                        chans.push((tx, ry));
                    }
                    for j in 0..na + nb {
                        let s = (w >> j & 1) as usize;
                        chans[s].0.send(i[s]).unwrap();
                        let x = chans[s].1.recv().unwrap();
                        told(s == 1, i[s], &x);
                        i[s] += 1;
                        steps += 1;
                    }
                    drop(chans);
                });
            } else {
                let mut r = [Run { f: &fs[fa], v: va, o: None }, Run { f: &fs[fb], v: vb, o: None }];
                for j in 0..na + nb {
                    let s = (w >> j & 1) as usize;
                    let x = r[s].step(i[s]);
                    told(s == 1, i[s], &x);
                    if gone && i[s] == r[s].f.n { r[s].o = None; }
                    i[s] += 1;
                    steps += 1;
                }
            }
        }
    }
    println!("same {}", steps);
}

/// crowd F V ORDER hashes…: an object of every kind with parameter set V (F = -), or of kind F with every parameter set: the steps
/// in rounds or object by object (with or without leaving them alive), from any first object, in both directions
fn crowd(a: &[String]) {
    quiet();
    let fs = fams();
    let who = members(&fs, &a[0], num(&a[1]));
    let mut o = num(&a[2]);
    let want: Vec<u64> = a[3..].iter().map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
    let base: Vec<usize> = who.iter().scan(0, |s, w| { let b = *s; *s += fs[w.0].n + 1; Some(b) }).collect();
    let (rounds, gone, back) = (o % 3 == 0, o % 3 == 2, o / 3 % 2 == 1);
    o /= 6;
    let mut list: Vec<usize> = (0..who.len()).map(|i| (i + o) % who.len()).collect();
    if back { list.reverse(); }
    let plan: Vec<(usize, usize)> = if rounds { (0..5).flat_map(|k| list.iter().map(move |&i| (i, k))).collect() } else { list.iter().flat_map(|&i| (0..5).map(move |k| (i, k))).collect() };
    let mut r: Vec<Run> = who.iter().map(|w| Run { f: &fs[w.0], v: w.1, o: None }).collect();
    let mut steps = 0;
    for &(i, k) in &plan {
        if k > r[i].f.n { continue; }
        let x = r[i].step(k);
        if h(&x) != want[base[i] + k] { println!("different {} with parameters {}, step {} of its object (0 makes it) yields {}", r[i].f.name, r[i].v, k, hx(&x)); return; }
        if gone && k == r[i].f.n { r[i].o = None; }
        steps += 1;
    }
    println!("same {}", steps);
}
fn members(fs: &[Fam], f: &str, v: usize) -> Vec<(usize, usize)> {
    if f == "-" { fs.iter().enumerate().map(|(i, f)| (i, v % f.vars)).collect() } else { (0..fs[num(f)].vars).map(|v| (num(f), v)).collect() }
}

fn child(args: &[String]) -> Result<String, String> {
    let exe = std::env::current_exe().unwrap();
    for n in 0.. {
        match Command::new(&exe).args(args).output() {
            Ok(o) if o.status.success() => return Ok(String::from_utf8_lossy(&o.stdout).into_owned()),
            Ok(o) => return Err(format!("the process for {:?} ended with {}: {}", &args[..2], o.status, String::from_utf8_lossy(&o.stderr))),
            Err(e) if n > 20 => { eprintln!("cannot start a process: {}", e); std::process::exit(2) }
            Err(_) => std::thread::sleep(std::time::Duration::from_millis(200)),
        }
    }
    unreachable!()
}
fn hashes(f: usize, v: usize) -> Result<(Vec<String>, Vec<String>), String> {
    let o = child(&["alone".into(), f.to_string(), v.to_string()])?;
    Ok(o.lines().map(|l| { let (a, b) = l.split_once(' ').unwrap_or((l, "")); (a.to_string(), b.to_string()) }).unzip())
}
/// what each object yields alone, found out once
struct Known(Mutex<BTreeMap<(usize, usize), (Vec<String>, Vec<String>)>>);
impl Known {
    fn get(&self, f: usize, v: usize) -> Result<(Vec<String>, Vec<String>), String> {
        if let Some(x) = self.0.lock().unwrap().get(&(f, v)) { return Ok(x.clone()); }
        let x = hashes(f, v)?;
        self.0.lock().unwrap().insert((f, v), x.clone());
        Ok(x)
    }
}
fn told(o: &str, t: &engine::T) -> R {
    match o.trim().split_once(' ') {
        Some(("same", n)) => { t.steps(n.parse().unwrap_or(0)); t.trace(); Ok(()) }
        Some(("different", x)) => Err(x.into()),
        _ => Err(format!("the process printed {:?}", o)),
    }
}
fn together(fs: &[Fam], kn: &Known, a: (usize, usize), c: (usize, usize), orders: usize, t: &engine::T) -> R {
    let ((ha, xa), (hb, xb)) = (kn.get(a.0, a.1)?, kn.get(c.0, c.1)?);
    let mut args: Vec<String> = vec!["pair".into(), a.0.to_string(), a.1.to_string(), c.0.to_string(), c.1.to_string(), orders.to_string()];
    args.extend(ha.iter().chain(hb.iter()).cloned());
    for x in xa.iter().chain(xb.iter()) { t.state(x.as_bytes()); }
    told(&child(&args)?, t).map_err(|e| format!("{} with parameters {} beside {} with parameters {}: {}; alone they yield {:?} and {:?}", fs[a.0].name, a.1, fs[c.0].name, c.1, e, xa, xb))
}

fn run(c: &Ctx) {
    let fs = fams();
    let fs = &fs;
    let kn = &Known(Mutex::new(BTreeMap::new()));
    c.note(format!("{} kinds of objects with {} parameter sets", fs.len(), fs.iter().map(|f| f.vars).sum::<usize>()));
    // every pair of parameter sets of one kind (quick: of which one is the first), every order of their steps
    for (i, f) in fs.iter().enumerate() {
        let v = f.vars as u64;
        let n = if c.thorough { v * v } else { 2 * v - 1 };
        c.par(&format!("kind/{}", f.name), n, |mut k, t| {
            let (x, y) = if t.thorough() { (dig(&mut k, v), k as usize) } else if k < v { (0, k as usize) } else { ((k - v + 1) as usize, 0) };
            together(fs, kn, (i, x), (i, y), if f.dear { 1 } else { t.pick(0, 2) }, t)
        });
    }
    let n = fs.len() as u64;
    // one object of every kind
    let all = |f: &str, v: usize, o: u64, t: &engine::T| {
        let mut args: Vec<String> = vec!["crowd".into(), f.into(), v.to_string(), o.to_string()];
        for w in members(fs, f, v) { args.extend(kn.get(w.0, w.1)?.0); }
        told(&child(&args)?, t)
    };
    let all = &all;
    c.par("crowd", 6 * c.pick(4, n), |i, t| {
        let i = if t.thorough() { i } else { i % 6 + 6 * (i / 6 * n / 4) };
        all("-", 0, i, t).map_err(|e| format!("one object of every kind, order {}: {}", i, e))
    });
    c.par("crowd-sets", c.pick(7, 33) * 6, |mut i, t| {
        let v = dig(&mut i, c.pick(7, 33));
        all("-", v, i, t).map_err(|e| format!("one object of every kind with parameters {}, order {}: {}", v, i, e))
    });
    // every parameter set of one kind
    c.par("herd", n * 6, |mut i, t| {
        let f = dig(&mut i, n);
        all(&f.to_string(), 0, i, t).map_err(|e| format!("{} with every parameter set, order {}: {}", fs[f].name, i, e))
    });
    // every pair of kinds
    if c.thorough {
        c.par("kinds", n * n, |mut k, t| {
            let (x, y) = (dig(&mut k, n), k as usize);
            together(fs, kn, (x, 0), (y, 0), 1, t)
        });
    }
}
