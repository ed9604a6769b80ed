//! C17, C18: ZUC, 128-EEA3 and 128-EIA3.
use crate::fw::*;
use crate::lib_api::*;
use crate::refs::zuc as rz;
use rcrypto::{Cipher, Digest, ZUCCipher, ZUCMac, ZUC};

fn key(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![0; 16],
        1 => vec![0xff; 16],
        _ => rng.patterned(16),
    }
}
pub fn c17_stream(cx: &mut Cx) -> R {
    for _ in 0..4 {
        let (mut k, mut iv) = (key(&mut cx.rng), key(&mut cx.rng));
        let mut z = if cx.rng.bool() {
            ZUC::new(arr(&k), arr(&iv))
        } else {
            match ZUC::from_slice(&k, &iv) {
                Ok(z) => z,
                Err(e) => return broken("zuc:ctor", format!("{}", e)),
            }
        };
        let mut r = rz::Zuc::new(&k, &iv);
        for round in 0..4 {
            let n = match cx.rng.below(4) {
                0 => cx.rng.below(4),
                1 => cx.rng.range(16, 40),
                _ => cx.rng.below(200),
            };
            for i in 0..n {
                let got = if cx.rng.bool() { z.zuc() } else { z.next().unwrap_or(0) };
                let want = r.word();
                ensure!(got == want, "zuc", "key {} iv {} segment {} word {}: {:08x} expected {:08x}", hex(&k), hex(&iv), round, i, got, want);
                cx.note(&[&got.to_le_bytes()]);
            }
            cx.evn("keystream words compared", n as u64);
            cx.case(&[&k, &iv, &(n as u32).to_le_bytes()]);
            match cx.rng.below(4) {
                0 => {
                    let mut c = z.clone();
                    let mut rc = r.clone();
                    for _ in 0..5 {
                        let (got, want) = (c.zuc(), rc.word());
                        ensure!(got == want, "zuc:clone", "clone of key {} iv {}: {:08x} expected {:08x}", hex(&k), hex(&iv), got, want);
                    }
                    cx.ev("clones");
                }
                1 => {
                    let (a, b) = *cx.rng.pick(&[(15usize, 16usize), (16, 15), (17, 16), (0, 16), (16, 0), (32, 32)]);
                    ensure!(z.set_slice(&vec![1; a], &vec![1; b]).is_err() && ZUC::from_slice(&vec![1; a], &vec![1; b]).is_err(), "zuc:len", "key of {} and IV of {} bytes accepted", a, b);
                    cx.ev("wrong lengths refused");
                }
                _ => {
                    k = key(&mut cx.rng);
                    iv = key(&mut cx.rng);
                    if cx.rng.bool() {
                        z.set(arr(&k), arr(&iv));
                    } else if z.set_slice(&k, &iv).is_err() {
                        return broken("zuc:set", "16-byte key and IV refused".into());
                    }
                    r = rz::Zuc::new(&k, &iv);
                    cx.ev("re-keyings");
                }
            }
        }
        cx.sample(|| format!("key {} iv {}", hex(&k), hex(&iv)));
    }
    Ok(())
}
pub fn c17_cipher(cx: &mut Cx) -> R {
    for _ in 0..4 {
        let (count, bearer, dir, ck) = (*cx.rng.clone().pick(&[0, u32::MAX, cx.rng.u32()]), cx.rng.u8(), cx.rng.bool(), key(&mut cx.rng));
        let c = if cx.rng.bool() {
            Ok(ZUCCipher::new(count, bearer, dir, arr(&ck)))
        } else {
            ZUCCipher::from_slice(count, bearer, dir, &ck)
        };
        let mut c = match c {
            Ok(c) => c,
            Err(e) => return broken("eea3:ctor", format!("{}", e)),
        };
        ensure!(ZUCCipher::from_slice(count, bearer, dir, &ck[..15]).is_err(), "eea3:len", "15-byte key accepted");
        let stream = rz::eea3_stream(count, bearer & 31, dir, &ck, 4096);
        let mut at = 0usize;
        let mut fork: Option<(ZUCCipher, usize)> = None;
        let mut trace = vec![];
        for _ in 0..cx.rng.range(4, 40) {
            if cx.rng.chance(1, 12) {
                c.reset();
                at = 0;
                trace.push("reset".to_string());
                cx.ev("resets");
            }
            if cx.rng.chance(1, 16) {
                fork = Some((c.clone(), at));
                cx.ev("clones");
            }
            let n = match cx.rng.below(4) {
                0 => cx.rng.below(4),
                1 => 4 * cx.rng.below(5),
                2 => cx.rng.below(9),
                _ => cx.rng.below(80),
            };
            if at + n > stream.len() {
                break;
            }
            let m = cx.rng.patterned(n);
            let want: Vec<u8> = m.iter().zip(&stream[at..]).map(|(a, b)| a ^ b).collect();
            let junk = cx.rng.below(40);
            let mut out = cx.rng.bytes(junk);
            let dec = cx.rng.bool();
            let r = if dec { c.decrypt(&mut out, &m) } else { c.encrypt(&mut out, &m) };
            trace.push(format!("{}@{}", n, at));
            same!(out, want, "eea3", "count {} bearer {} dir {} key {} calls {}", count, bearer, dir, hex(&ck), trace.join(" "));
            ensure!(matches!(r, Ok(k) if k == n), "eea3:count", "call {} reports {:?} for {} bytes", trace.join(" "), r, n);
            cx.note(&[&out]);
            if n > 0 && at % 4 != 0 && at % 4 + n <= 4 {
                cx.ev("calls served from left-over keystream only");
            }
            if n > 4 && at % 4 != 0 {
                cx.ev("calls continuing a started word");
            }
            if n == 0 {
                cx.ev("empty calls");
            }
            at += n;
            cx.ev("calls compared");
            cx.case(&[&ck, &count.to_le_bytes(), &[bearer, dir as u8], &m, &(at as u32).to_le_bytes()]);
        }
        if let Some((c, at)) = fork {
            let mut out = vec![];
            let n = 30.min(stream.len() - at);
            let r = c.encrypt(&mut out, &vec![0; n]);
            ensure!(r.is_ok() && out == stream[at..at + n], "eea3:clone", "clone taken at {} continues with {}", at, hex(&out));
        }
        cx.sample(|| format!("count {} bearer {} dir {} calls {}", count, bearer, dir, trace.join(" ")));
    }
    Ok(())
}
fn c18_mac(cx: &mut Cx) -> R {
    for _ in 0..16 {
        let (count, bearer, dir, ck) = (*cx.rng.clone().pick(&[0, u32::MAX, cx.rng.u32()]), cx.rng.u8(), cx.rng.bool(), key(&mut cx.rng));
        let o = if cx.rng.bool() { Ok(ZUCMac::new(count, bearer, dir, arr(&ck))) } else { ZUCMac::from_slice(count, bearer, dir, &ck) };
        let mut o = match o {
            Ok(o) => o,
            Err(e) => return broken("eia3:ctor", format!("{}", e)),
        };
        ensure!(ZUCMac::from_slice(count, bearer, dir, &ck[..15]).is_err(), "eia3:len", "15-byte key accepted");
        ensure!(o.bits_len() == 32, "eia3:info", "bits_len {}", o.bits_len());
        for round in 0..3 {
            let n = match cx.rng.below(6) {
                0 => 0,
                1 => cx.rng.below(9),
                2 => 4 * cx.rng.below(20),
                _ => cx.rng.below(120),
            };
            let m = cx.rng.patterned(n);
            let mut at = 0;
            let mut sizes = vec![];
            for k in cx.rng.split(n, 4) {
                o.write(&m[at..at + k]);
                at += k;
                sizes.push(k);
            }
            let junk = cx.rng.below(9);
            let mut out = cx.rng.bytes(junk);
            o.checksum(&mut out);
            same!(out, rz::eia3(count, bearer & 31, dir, &ck, &m), "eia3", "count {} bearer {} dir {} key {} round {} writes {:?} of {}", count, bearer, dir, hex(&ck), round, sizes, hx(&m));
            cx.case(&[&ck, &count.to_le_bytes(), &[bearer, dir as u8], &m, format!("{:?}", sizes).as_bytes()]);
            cx.note(&[&out]);
            cx.ev("MACs compared");
            if n == 0 {
                cx.ev("empty messages");
            }
            if sizes.iter().any(|k| k % 4 != 0) && sizes.len() > 1 {
                cx.ev("messages split inside a word");
            }
            if n > 0 && n % 4 == 0 {
                cx.ev("messages of whole words");
            }
            if round < 2 {
                o.reset();
                cx.ev("resets");
            }
        }
    }
    cx.sample(|| "random parameters, messages of 0..120 bytes in random splits".into());
    Ok(())
}
fn c18_history(cx: &mut Cx) -> R {
    super::hash::history(cx, super::hash::zmac_alg)
}
fn c18_long(cx: &mut Cx) -> R {
    super::hash::long(cx, super::hash::zmac_alg)
}
/// long inputs of the cipher in a few calls
fn c17_long(cx: &mut Cx) -> R {
    let (count, bearer, dir, ck) = (cx.rng.u32(), cx.rng.u8() & 31, cx.rng.bool(), key(&mut cx.rng));
    let mut c = ZUCCipher::new(count, bearer, dir, arr(&ck));
    let stream = rz::eea3_stream(count, bearer, dir, &ck, 300_000);
    let mut at = 0;
    let mut trace = vec![];
    while at < stream.len() {
        let n = match cx.rng.below(4) {
            0 => (1 << cx.rng.range(8, 17)) + cx.rng.below(9) - 4,
            1 => cx.rng.below(200),
            _ => cx.rng.below(40_000),
        };
        let n = n.min(stream.len() - at);
        let m = cx.rng.patterned(n);
        let want: Vec<u8> = m.iter().zip(&stream[at..]).map(|(a, b)| a ^ b).collect();
        let mut out = vec![];
        let r = c.encrypt(&mut out, &m);
        trace.push(format!("{}@{}", n, at));
        same!(out, want, "eea3:long", "count {} bearer {} dir {} key {} calls {}", count, bearer, dir, hex(&ck), trace.join(" "));
        ensure!(matches!(r, Ok(k) if k == n), "eea3:count", "call {} reports {:?} for {} bytes", trace.join(" "), r, n);
        at += n;
        cx.note(&[&out]);
        cx.ev("long calls compared");
        cx.case(&[&ck, &(at as u32).to_le_bytes()]);
    }
    cx.sample(|| trace.join(" "));
    Ok(())
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "one evaluation = one keystream segment of the generator, or one call of the cipher on a history of calls, compared with a model; distinct (key, IV or parameters, data, position) are counted",
            assumptions: &["the ZUC model of the harness (self-tested with the published vectors)"],
            require: &["keystream words compared", "re-keyings", "wrong lengths refused", "clones", "resets", "calls compared", "calls served from left-over keystream only", "calls continuing a started word", "empty calls", "long calls compared"],
            jobs: vec![
                Job { name: "stream", quick: 20000, thorough: 240000, run: c17_stream },
                Job { name: "cipher", quick: 30000, thorough: 360000, run: c17_cipher },
                Job { name: "long", quick: 400, thorough: 4800, run: c17_long },
            ],
        },
        Prop {
            id: "C18",
            rule: "one evaluation = one MAC of a message in a random split compared with the 128-EIA3 definition; distinct (parameters, message, split) are counted",
            assumptions: &["the ZUC model of the harness (self-tested with the published vectors)", "messages are whole bytes, as the interface takes bytes"],
            require: &["MACs compared", "empty messages", "messages split inside a word", "messages of whole words", "resets", "writes after a checksum", "repeated checksums", "long messages"],
            jobs: vec![
                Job { name: "mac", quick: 40000, thorough: 480000, run: c18_mac },
                Job { name: "history", quick: 4000, thorough: 48000, run: c18_history },
                Job { name: "long", quick: 600, thorough: 7200, run: c18_long },
            ],
        },
    ]
}
