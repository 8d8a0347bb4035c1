//! Known-answer tests of the reference models themselves.
use vh::refs::{bn::Bn, cipher::*, ec, hash, mac, zuc};
fn h(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn u(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn main() {
    let mut bad = 0;
    let mut ck = |n: &str, a: String, b: &str| if a != b { bad += 1; println!("FAIL {}: {} != {}", n, a, b) };
    ck("md5", h(&hash::md5(b"abc")), "900150983cd24fb0d6963f7d28e17f72");
    ck("sha1", h(&hash::sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
    ck("sha224", h(&hash::sha224(b"abc")), "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7");
    ck("sha256", h(&hash::sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    ck("sha512/224", h(&hash::sha512t(224, b"abc")), "4634270f707b6a54daae7530460842e20e37ed265ceee9a43e8924aa");
    ck("sha512/256", h(&hash::sha512t(256, b"abc")), "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23");
    ck("sm3", h(&hash::sm3(b"abc")), "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0");
    ck("sha3-256", h(&hash::sha3(256, b"")), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a");
    ck("aes128", h(&Aes::new(&u("000102030405060708090a0b0c0d0e0f")).enc(&u("00112233445566778899aabbccddeeff"))), "69c4e0d86a7b0430d8cdb78070b4c55a");
    ck("aes192", h(&Aes::new(&u("000102030405060708090a0b0c0d0e0f1011121314151617")).enc(&u("00112233445566778899aabbccddeeff"))), "dda97ca4864cdfe06eaf70a0ec0d7191");
    ck("aes256", h(&Aes::new(&u("000102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f")).enc(&u("00112233445566778899aabbccddeeff"))), "8ea2b7ca516745bfeafc49904b496089");
    ck("des", h(&Des::new(&u("133457799bbcdff1")).enc(&u("0123456789abcdef"))), "85e813540f0ab405");
    ck("sm4", h(&Sm4::new(&u("0123456789abcdeffedcba9876543210")).enc(&u("0123456789abcdeffedcba9876543210"))), "681edf34d206965e86b3e94f536e4246");
    let mut z = zuc::RZuc::new(&[0; 16], &[0; 16]);
    ck("zuc", format!("{:08x}{:08x}", z.next(), z.next()), "27bede74018082da");
    let mut z = zuc::RZuc::new(&[0xff; 16], &[0xff; 16]);
    ck("zuc1", format!("{:08x}{:08x}", z.next(), z.next()), "0657cfa07096398b");
    ck("eia3", h(&zuc::eia3_bits(0, 0, false, &[0; 16], &[0; 4], 1)), "c8a9595e");
    ck("eia3-3", h(&zuc::eia3_bits(0xa94059da, 0x0a, true, &u("c9e6cec4607c72db000aefa88385ab0a"),
        &u("983b41d47d780c9e1ad11d7eb70391b1de0b35da2dc62f83e7b78d6306ca0ea07e941b7be91348f9fcb170e2217fecd97f9f68adb16e5d7d21e569d280ed775cebde3f4093c53881000000"), 0x241)), "fae8ff0b");
    ck("cmac", h(&mac::cmac(&|b| Aes::new(&u("2b7e151628aed2a6abf7158809cf4f3c")).enc(b), 16, &u("6bc1bee22e409f96e93d7e117393172a"))), "070a16b46b4d4144f79bdd9dd04a287c");
    ck("hmac", h(&mac::hmac(&hash::sha256, 64, &[0x0b; 20], b"Hi There")), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7");
    for (n, c) in [("p224", ec::p224()), ("p256", ec::p256()), ("p384", ec::p384()), ("p521", ec::p521())] {
        ck(n, format!("{} {} {}", c.on(&c.g()), c.p.is_prime(), c.mul(&c.n, &c.g()) == ec::Pt::Inf), "true true true");
    }
    // dumps compared with other implementations during development
    if std::env::args().nth(1).as_deref() == Some("dump") {
        for n in [0usize, 1, 55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 200, 1000] {
            let m: Vec<u8> = (0..n).map(|i| (i * 7 + 3) as u8).collect();
            println!("{} {} {} {} {} {} {} {} {} {} {} {}", n, h(&hash::md5(&m)), h(&hash::sha1(&m)), h(&hash::sha224(&m)), h(&hash::sha256(&m)), h(&hash::sha384(&m)), h(&hash::sha512(&m)),
                h(&hash::sm3(&m)), h(&hash::sha3(224, &m)), h(&hash::sha3(512, &m)), h(&hash::shake(128, false, &m, 4000)), h(&hash::shake(256, false, &m, 2400)));
        }
        for i in 0..300u32 {
            let k: Vec<u8> = (0..32).map(|j| (i * 31 + j * j * 7 + (i >> 3) * j) as u8).collect();
            let p: Vec<u8> = (0..16).map(|j| (i * 13 + j * 11 + (i >> 2) * j) as u8).collect();
            println!("C {} {} {} {} {} {}", h(&k), h(&p), h(&Des::new(&k[..8]).enc(&p[..8])), h(&Sm4::new(&k[..16]).enc(&p)), h(&Aes::new(&k[..24]).enc(&p)),
                h(&Tdes(Des::new(&k[..8]), Des::new(&k[8..16]), Des::new(&k[16..24])).enc(&p[..8])));
        }
        let x = Bn::from_hex("123456789abcdef0123456789abcdef0fedcba98");
        println!("B {} {}", x.powm(&x, &ec::p521().p).to_hex(), x.invm(&ec::p256().p).unwrap().to_hex());
    }
    if bad > 0 { std::process::exit(1) }
    println!("reference self-test ok");
}
