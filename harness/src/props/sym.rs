//! C01-C04: block ciphers.
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::modes::Blk;
use crate::refs::{aes, des, sm4};
use rcrypto::{Cipher, CryptoError, AES, DES, SM4, TDES};

fn run_blk<E: std::fmt::Display>(
    f: impl FnOnce(&mut Vec<u8>) -> Result<usize, E>, junk: Vec<u8>, what: &str, sig: &str,
) -> Result<Vec<u8>, Broken> {
    let mut dst = junk;
    match f(&mut dst) {
        Ok(n) => {
            ensure!(n == dst.len(), format!("{}:len", sig), "{}: reported {} bytes but left {}", what, n, dst.len());
            Ok(dst)
        }
        Err(e) => Err(Broken { sig: format!("{}:refused", sig), detail: format!("{}: whole block refused: {}", what, e) }),
    }
}

/// one key, several blocks, every constructor and backend
fn aes_key(cx: &mut Cx, key: &[u8], blocks: &[Vec<u8>]) -> R {
    let r = aes::Aes::new(key);
    let hw: Vec<(&str, AES)> = vec![
        ("AES::new", aes_ctor(key, 0).map_err(|e| Broken { sig: "aes:ctor".into(), detail: format!("{} bytes: {}", key.len(), e) })?),
        ("AES::aes_N", aes_ctor(key, 1).map_err(|e| Broken { sig: "aes:ctor".into(), detail: format!("{}", e) })?),
    ];
    let port = vec![
        match rcrypto_portable::AES::new(key.to_vec()) {
            Ok(c) => c,
            Err(e) => return broken("aes:port-ctor", format!("{}", e)),
        },
        match key.len() {
            16 => rcrypto_portable::AES::aes_128(arr(key)),
            24 => rcrypto_portable::AES::aes_192(arr(key)),
            _ => rcrypto_portable::AES::aes_256(arr(key)),
        },
    ];
    for b in blocks {
        let want = r.enc(b);
        let back = r.dec(b);
        for (n, c) in &hw {
            let got = run_blk(|d| c.encrypt(d, b), vec![], n, "aes:enc")?;
            same!(got, want, format!("aes{}:enc", key.len() * 8), "{} key {} block {}", n, hex(key), hex(b));
            let got = run_blk(|d| c.decrypt(d, b), vec![], n, "aes:dec")?;
            same!(got, back, format!("aes{}:dec", key.len() * 8), "{} key {} block {}", n, hex(key), hex(b));
        }
        for c in &port {
            let got = run_blk(|d| rcrypto_portable::Cipher::encrypt(c, d, b), vec![], "portable", "aes:port-enc")?;
            same!(got, want, format!("aes{}:port-enc", key.len() * 8), "portable key {} block {}", hex(key), hex(b));
            let got = run_blk(|d| rcrypto_portable::Cipher::decrypt(c, d, b), vec![], "portable", "aes:port-dec")?;
            same!(got, back, format!("aes{}:port-dec", key.len() * 8), "portable key {} block {}", hex(key), hex(b));
        }
        cx.case(&[key, b]);
        cx.note(&[&want, &back]);
        cx.evn("blocks compared on the accelerated backend", 4);
        cx.evn("blocks compared on the portable backend", 4);
    }
    cx.ev(match key.len() {
        16 => "128-bit keys",
        24 => "192-bit keys",
        _ => "256-bit keys",
    });
    cx.sample(|| format!("AES-{} key {} block {}", key.len() * 8, hex(key), hex(&blocks[0])));
    Ok(())
}
fn blocks(cx: &mut Cx, bs: usize, n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| cx.rng.patterned(bs)).collect()
}
fn c01_random(cx: &mut Cx) -> R {
    for _ in 0..40 {
        for l in [16, 24, 32] {
            let key = cx.rng.patterned(l);
            let mut b = blocks(cx, 16, 4);
            b.push(key[..16].to_vec());
            aes_key(cx, &key, &b)?;
        }
    }
    Ok(())
}
/// every single-bit key and every single-bit block, every byte value at every position
fn c01_basis(cx: &mut Cx) -> R {
    let l = [16, 24, 32][cx.idx % 3];
    let base_k = if cx.idx < 3 { vec![0u8; l] } else { cx.rng.bytes(l) };
    for bit in 0..l * 8 {
        let mut k = base_k.clone();
        k[bit / 8] ^= 0x80 >> (bit % 8);
        let b = blocks(cx, 16, 1);
        aes_key(cx, &k, &b)?;
    }
    let mut bl = Vec::new();
    for pos in 0..16 {
        for v in 0..=255u8 {
            let mut b = vec![0u8; 16];
            b[pos] = v;
            bl.push(b);
        }
    }
    aes_key(cx, &base_k, &bl)?;
    for pos in 0..l {
        for v in (0..=255u8).step_by(5) {
            let mut k = base_k.clone();
            k[pos] = v;
            let b = blocks(cx, 16, 1);
            aes_key(cx, &k, &b)?;
        }
    }
    cx.ev("single-bit and single-byte sweeps");
    Ok(())
}
/// each output becomes the next input and flows into the next key
fn c01_chain(cx: &mut Cx) -> R {
    let l = [16, 24, 32][cx.idx % 3];
    let mut k = cx.rng.bytes(l);
    let mut b = cx.rng.bytes(16);
    for i in 0..300 {
        aes_key(cx, &k, &[b.clone()])?;
        b = aes::Aes::new(&k).enc(&b);
        if i % 3 == 0 {
            for j in 0..l {
                k[j] ^= b[j % 16].rotate_left((j / 16) as u32);
            }
        }
    }
    cx.ev("feedback chains");
    Ok(())
}

fn des_key(cx: &mut Cx, key: &[u8], blocks: &[Vec<u8>]) -> R {
    let (c, r) = (DES::new(arr(key)), des::Des::new(key));
    for b in blocks {
        let (we, wd) = (r.enc(b), r.dec(b));
        let got = run_blk(|d| c.encrypt(d, b), vec![], "DES", "des:enc")?;
        same!(got, we, "des:enc", "key {} block {}", hex(key), hex(b));
        let got = run_blk(|d| c.decrypt(d, b), vec![], "DES", "des:dec")?;
        same!(got, wd, "des:dec", "key {} block {}", hex(key), hex(b));
        cx.case(&[key, b]);
        cx.note(&[&we, &wd]);
    }
    cx.evn("DES blocks compared", 2 * blocks.len() as u64);
    cx.sample(|| format!("DES key {} block {}", hex(key), hex(&blocks[0])));
    Ok(())
}
fn tdes_key(cx: &mut Cx, key: &[u8], blocks: &[Vec<u8>]) -> R {
    let c = TDES::new(arr(key), arr(&key[8..]), arr(&key[16..]));
    let r = des::Tdes::new(key);
    for b in blocks {
        let (we, wd) = (r.enc(b), r.dec(b));
        let got = run_blk(|d| c.encrypt(d, b), vec![], "TDES", "tdes:enc")?;
        same!(got, we, "tdes:enc", "key {} block {}", hex(key), hex(b));
        let got = run_blk(|d| c.decrypt(d, b), vec![], "TDES", "tdes:dec")?;
        same!(got, wd, "tdes:dec", "key {} block {}", hex(key), hex(b));
        cx.case(&[key, b]);
        cx.note(&[&we, &wd]);
    }
    cx.evn("Triple-DES blocks compared", 2 * blocks.len() as u64);
    Ok(())
}
const WEAK: &[&str] = &[
    "0101010101010101", "fefefefefefefefe", "e0e0e0e0f1f1f1f1", "1f1f1f1f0e0e0e0e", "0000000000000000", "ffffffffffffffff",
    "011f011f010e010e", "01e001e001f101f1", "01fe01fe01fe01fe", "1fe01fe00ef10ef1", "1ffe1ffe0efe0efe", "e0fee0fef1fef1fe",
];
fn c02_des(cx: &mut Cx) -> R {
    for _ in 0..60 {
        let key = cx.rng.patterned(8);
        let b = blocks(cx, 8, 6);
        des_key(cx, &key, &b)?;
        // the parity bits must not matter
        let mut k2 = key.clone();
        for x in k2.iter_mut() {
            *x ^= cx.rng.u8() & 1;
        }
        des_key(cx, &k2, &b)?;
        cx.ev("parity bits varied");
    }
    Ok(())
}
fn c02_basis(cx: &mut Cx) -> R {
    for w in WEAK {
        let k = unhex(w);
        let b = blocks(cx, 8, 3);
        des_key(cx, &k, &b)?;
        cx.ev("weak and semi-weak keys");
    }
    let base = if cx.idx == 0 { vec![1u8; 8] } else { cx.rng.bytes(8) };
    let mut bl = Vec::new();
    for bit in 0..64 {
        let mut k = base.clone();
        k[bit / 8] ^= 0x80 >> (bit % 8);
        let b = blocks(cx, 8, 2);
        des_key(cx, &k, &b)?;
        let mut b = vec![0u8; 8];
        b[bit / 8] = 0x80 >> (bit % 8);
        bl.push(b);
    }
    for pos in 0..8 {
        for v in 0..=255u8 {
            let mut b = base.clone();
            b[pos] = v;
            bl.push(b);
        }
    }
    des_key(cx, &base, &bl)
}
fn c02_tdes(cx: &mut Cx) -> R {
    for i in 0..60 {
        let mut key = cx.rng.patterned(24);
        match i % 6 {
            0 => key.copy_within(0..8, 8),
            1 => key.copy_within(8..16, 16),
            2 => key.copy_within(0..8, 16),
            3 => {
                key.copy_within(0..8, 8);
                key.copy_within(0..8, 16);
                cx.ev("degenerate three equal keys");
            }
            _ => {}
        }
        let b = blocks(cx, 8, 4);
        tdes_key(cx, &key, &b)?;
    }
    Ok(())
}
fn sm4_key(cx: &mut Cx, key: &[u8], blocks: &[Vec<u8>]) -> R {
    let r = sm4::Sm4::new(key);
    let cs = [
        SM4::new(arr(key)),
        match SM4::from_slice(key) {
            Ok(c) => c,
            Err(e) => return broken("sm4:ctor", format!("from_slice refused 16 bytes: {}", e)),
        },
    ];
    for b in blocks {
        let (we, wd) = (r.enc(b), r.dec(b));
        for c in &cs {
            let got = run_blk(|d| c.encrypt(d, b), vec![], "SM4", "sm4:enc")?;
            same!(got, we, "sm4:enc", "key {} block {}", hex(key), hex(b));
            let got = run_blk(|d| c.decrypt(d, b), vec![], "SM4", "sm4:dec")?;
            same!(got, wd, "sm4:dec", "key {} block {}", hex(key), hex(b));
        }
        cx.case(&[key, b]);
        cx.note(&[&we, &wd]);
    }
    cx.evn("SM4 blocks compared", 4 * blocks.len() as u64);
    cx.sample(|| format!("SM4 key {} block {}", hex(key), hex(&blocks[0])));
    Ok(())
}
fn c03_random(cx: &mut Cx) -> R {
    for _ in 0..150 {
        let key = cx.rng.patterned(16);
        let mut b = blocks(cx, 16, 5);
        b.push(key.clone());
        sm4_key(cx, &key, &b)?;
    }
    Ok(())
}
fn c03_basis(cx: &mut Cx) -> R {
    let base = if cx.idx == 0 { vec![0u8; 16] } else { cx.rng.bytes(16) };
    let mut bl = Vec::new();
    for pos in 0..16 {
        for v in 0..=255u8 {
            let mut k = base.clone();
            k[pos] = v;
            let b = blocks(cx, 16, 1);
            sm4_key(cx, &k, &b)?;
            let mut b = base.clone();
            b[pos] = v;
            bl.push(b);
        }
    }
    sm4_key(cx, &base, &bl)?;
    cx.ev("every byte value at every position of key and block");
    let mut b = cx.rng.bytes(16);
    let mut k = cx.rng.bytes(16);
    for _ in 0..300 {
        sm4_key(cx, &k, &[b.clone()])?;
        b = sm4::Sm4::new(&k).enc(&b);
        for j in 0..16 {
            k[j] ^= b[15 - j];
        }
    }
    Ok(())
}

/// random histories over one cipher object and its clones
fn c04_history(cx: &mut Cx) -> R {
    for name in CIPHERS {
        let p = pair(name, &mut cx.rng);
        let bs = p.r.bs();
        ensure!(p.c.block_size() == Some(bs), "block_size", "{} block_size {:?}", name, p.c.block_size());
        let mut objs = vec![p.c.clone()];
        let probe = cx.rng.bytes(bs);
        for step in 0..60 {
            if cx.rng.chance(1, 10) && objs.len() < 4 {
                let k = cx.rng.below(objs.len());
                let o = objs[k].clone();
                objs.push(o);
                cx.ev("clones made");
            }
            let k = cx.rng.below(objs.len());
            let enc = cx.rng.bool();
            let junk_len = *cx.rng.pick(&[0usize, 1, 5, 8, 16, 17, 100]);
            let junk = cx.rng.bytes(junk_len);
            if cx.rng.chance(1, 3) {
                let mut l = cx.rng.below(4 * bs + 2);
                if l == bs {
                    l += 1;
                }
                let data = cx.rng.bytes(l);
                let mut d = junk.clone();
                let o = &objs[k];
                let r = match no_panic(|| if enc { o.encrypt(&mut d, &data) } else { o.decrypt(&mut d, &data) }) {
                    Ok(r) => r,
                    Err(m) => return broken("wrong-length:panic", format!("{} with {} bytes (encrypt={}): {}", name, l, enc, m)),
                };
                ensure!(r.is_err(), "wrong-length:accepted", "{} accepted {} bytes for a {}-byte block", name, l, bs);
                cx.ev("wrong-length calls refused");
            } else {
                let data = if step % 4 == 0 { probe.clone() } else { cx.rng.bytes(bs) };
                let o = &objs[k];
                let got = run_blk(|d| if enc { o.encrypt(d, &data) } else { o.decrypt(d, &data) }, junk, name, "block")?;
                let want = if enc { p.r.e(&data) } else { p.r.d(&data) };
                same!(got, want, "history", "{} step {} key {} block {} encrypt={}", name, step, hex(&p.key), hex(&data), enc);
                cx.case(&[name.as_bytes(), &p.key, &data, &[enc as u8, step as u8]]);
                cx.ev("calls inside a history compared");
                if junk_len > 0 {
                    cx.ev("output vectors with previous content");
                }
            }
        }
        cx.sample(|| format!("history of 60 calls on {} key {}", name, hex(&p.key)));
    }
    Ok(())
}
/// many live objects with different keys, driven in turns
fn c04_many(cx: &mut Cx) -> R {
    let v: Vec<Pair> = (0..24).map(|_| { let n = CIPHERS[cx.rng.below(CIPHERS.len())]; pair(n, &mut cx.rng) }).collect();
    for _ in 0..200 {
        let p = &v[cx.rng.below(v.len())];
        let b = cx.rng.patterned(p.r.bs());
        let enc = cx.rng.bool();
        let got = run_blk(|d| if enc { p.c.encrypt(d, &b) } else { p.c.decrypt(d, &b) }, vec![9; 40], &p.name, "block")?;
        let want = if enc { p.r.e(&b) } else { p.r.d(&b) };
        same!(got, want, "interleaved", "{} key {} block {}", p.name, hex(&p.key), hex(&b));
        cx.case(&[&p.key, &b, &[enc as u8]]);
        cx.ev("interleaved calls on other objects");
    }
    Ok(())
}
fn c04_keys(cx: &mut Cx) -> R {
    let ok = |r: Result<(), CryptoError>| r.is_ok();
    for l in 0..=300usize {
        let k = cx.rng.patterned(l);
        let valid = l == 16 || l == 24 || l == 32;
        let r = no_panic(|| ok(AES::new(k.clone()).map(|_| ())));
        ensure!(r == Ok(valid), "aes:key-length", "AES::new with {} bytes: {:?}", l, r);
        let r = no_panic(|| rcrypto_portable::AES::new(k.clone()).is_ok());
        ensure!(r == Ok(valid), "aes:port-key-length", "portable AES::new with {} bytes: {:?}", l, r);
        let r = no_panic(|| ok(SM4::from_slice(&k).map(|_| ())));
        ensure!(r == Ok(l == 16), "sm4:key-length", "SM4::from_slice with {} bytes: {:?}", l, r);
        cx.case(&[&k, &[3]]);
        cx.evn("key lengths tried", 3);
        // every input length, too
        for name in CIPHERS {
            let p = pair(name, &mut cx.rng);
            let bs = p.r.bs();
            for enc in [true, false] {
                let mut d = vec![1, 2, 3];
                let r = no_panic(|| if enc { p.c.encrypt(&mut d, &k).is_ok() } else { p.c.decrypt(&mut d, &k).is_ok() });
                ensure!(r == Ok(l == bs), "data-length", "{} with {} bytes encrypt={}: {:?}", name, l, enc, r);
                cx.case(&[name.as_bytes(), &k, &[enc as u8]]);
                cx.ev("input lengths tried");
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "one evaluation = one (key, block) pair run through both constructors of both backends in both directions against a table-free FIPS-197 model; distinct pairs are counted, so repeats of all-zero keys and blocks do not count twice",
            assumptions: &["the FIPS-197 model of the harness (self-tested with the appendix C vectors)", "the accelerated backend is the one build.rs selects on this machine"],
            require: &["blocks compared on the accelerated backend", "blocks compared on the portable backend", "128-bit keys", "192-bit keys", "256-bit keys", "single-bit and single-byte sweeps", "feedback chains"],
            jobs: vec![
                Job { name: "random", quick: 1200, thorough: 14400, run: c01_random },
                Job { name: "basis", quick: 180, thorough: 2160, run: c01_basis },
                Job { name: "chain", quick: 360, thorough: 4320, run: c01_chain },
            ],
        },
        Prop {
            id: "C02",
            rule: "one evaluation = one (key, block) pair encrypted and decrypted and compared with a bit-level FIPS 46-3 model; distinct pairs are counted",
            assumptions: &["the FIPS 46-3 model of the harness (self-tested with published vectors)"],
            require: &["DES blocks compared", "Triple-DES blocks compared", "parity bits varied", "weak and semi-weak keys", "degenerate three equal keys"],
            jobs: vec![
                Job { name: "des", quick: 800, thorough: 9600, run: c02_des },
                Job { name: "basis", quick: 120, thorough: 1440, run: c02_basis },
                Job { name: "tdes", quick: 800, thorough: 9600, run: c02_tdes },
            ],
        },
        Prop {
            id: "C03",
            rule: "one evaluation = one (key, block) pair through both constructors in both directions against a GB/T 32907 model whose S-box is computed; distinct pairs are counted",
            assumptions: &["the SM4 model of the harness (self-tested with the standard's example)"],
            require: &["SM4 blocks compared", "every byte value at every position of key and block"],
            jobs: vec![
                Job { name: "random", quick: 900, thorough: 10800, run: c03_random },
                Job { name: "basis", quick: 120, thorough: 1440, run: c03_basis },
            ],
        },
        Prop {
            id: "C04",
            rule: "one evaluation = one call inside a random history over a cipher object and its clones (whole blocks, wrong lengths, dirty output vectors), judged by a memoryless model; refused wrong-length calls are counted as events only",
            assumptions: &["the block cipher models of the harness"],
            require: &["clones made", "wrong-length calls refused", "calls inside a history compared", "output vectors with previous content", "interleaved calls on other objects", "key lengths tried", "input lengths tried"],
            jobs: vec![
                Job { name: "history", quick: 2400, thorough: 28800, run: c04_history },
                Job { name: "many", quick: 1600, thorough: 19200, run: c04_many },
                Job { name: "keys", quick: 320, thorough: 3840, run: c04_keys },
            ],
        },
    ]
}
