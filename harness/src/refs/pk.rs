//! RFC 8017 encodings and the DSA equation, as plain functions.
use super::big::Big;
use super::hashes::HashFn;
use super::modes::xor;

pub fn mgf1(h: HashFn, seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = Vec::new();
    let mut c = 0u32;
    while o.len() < n {
        let mut v = seed.to_vec();
        v.extend_from_slice(&c.to_be_bytes());
        o.extend(h(&v));
        c += 1;
    }
    o.truncate(n);
    o
}
pub fn oaep_decode(h: HashFn, hl: usize, label: &[u8], em: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 2 * hl + 2 || em[0] != 0 {
        return None;
    }
    let seed = xor(&em[1..1 + hl], &mgf1(h, &em[1 + hl..], hl));
    let db = xor(&em[1 + hl..], &mgf1(h, &seed, em.len() - hl - 1));
    if db[..hl] != h(label)[..] {
        return None;
    }
    let z = db[hl..].iter().take_while(|b| **b == 0).count();
    if hl + z < db.len() && db[hl + z] == 1 { Some(db[hl + z + 1..].to_vec()) } else { None }
}
/// masks a (possibly malformed) data block
pub fn oaep_mask(h: HashFn, hl: usize, first: u8, seed: &[u8], db: &[u8]) -> Vec<u8> {
    let mdb = xor(db, &mgf1(h, seed, db.len()));
    let ms = xor(seed, &mgf1(h, &mdb, hl));
    let mut em = vec![first];
    em.extend(ms);
    em.extend(mdb);
    em
}
pub fn pkcs1_dec(em: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 11 || em[0] != 0 || em[1] != 2 {
        return None;
    }
    let z = em[2..].iter().position(|b| *b == 0)?;
    if z < 8 { None } else { Some(em[2 + z + 1..].to_vec()) }
}
/// DigestInfo prefixes of RFC 8017
pub fn digest_info(name: &str) -> Option<Vec<u8>> {
    Some(crate::fw::unhex(match name {
        "MD5" => "3020300c06082a864886f70d020505000410",
        "SHA1" => "3021300906052b0e03021a05000414",
        "SHA224" => "302d300d06096086480165030402040500041c",
        "SHA256" => "3031300d060960864801650304020105000420",
        "SHA384" => "3041300d060960864801650304020205000430",
        "SHA512" => "3051300d060960864801650304020305000440",
        _ => return None,
    }))
}
pub fn pkcs1_sig_em(prefix: &[u8], hash: &[u8], k: usize) -> Vec<u8> {
    let t = prefix.len() + hash.len();
    let mut em = vec![0, 1];
    em.resize(k - t - 1, 0xff);
    em.push(0);
    em.extend_from_slice(prefix);
    em.extend_from_slice(hash);
    em
}
/// EMSA-PSS-VERIFY; `slen` None accepts any salt length. Returns the salt.
pub fn pss_verify(h: HashFn, hl: usize, mhash: &[u8], em: &[u8], embits: usize, slen: Option<usize>) -> Option<Vec<u8>> {
    let emlen = (embits + 7) / 8;
    if em.len() != emlen || emlen < hl + 2 || *em.last()? != 0xbc {
        return None;
    }
    let mdb = &em[..emlen - hl - 1];
    let hh = &em[emlen - hl - 1..emlen - 1];
    let top = 8 * emlen - embits;
    let mask = (0xffu16 >> top) as u8;
    if mdb[0] & !mask != 0 {
        return None;
    }
    let mut db = xor(mdb, &mgf1(h, hh, mdb.len()));
    db[0] &= mask;
    let z = db.iter().take_while(|b| **b == 0).count();
    if z >= db.len() || db[z] != 1 {
        return None;
    }
    let salt = db[z + 1..].to_vec();
    if let Some(s) = slen {
        if salt.len() != s {
            return None;
        }
    }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mhash);
    m.extend_from_slice(&salt);
    if h(&m) == hh { Some(salt) } else { None }
}
/// EMSA-PSS encoding from explicit pieces, so single rules can be broken
pub fn pss_encode(h: HashFn, hl: usize, mhash: &[u8], salt: &[u8], embits: usize, sep: u8, pad: u8, trailer: u8) -> Option<Vec<u8>> {
    let emlen = (embits + 7) / 8;
    if emlen < hl + salt.len() + 2 {
        return None;
    }
    let mut m = vec![0u8; 8];
    m.extend_from_slice(mhash);
    m.extend_from_slice(salt);
    let hh = h(&m);
    let mut db = vec![pad; emlen - salt.len() - hl - 2];
    db.push(sep);
    db.extend_from_slice(salt);
    let mut mdb = xor(&db, &mgf1(h, &hh, db.len()));
    mdb[0] &= (0xffu16 >> (8 * emlen - embits)) as u8;
    mdb.extend(hh);
    mdb.push(trailer);
    Some(mdb)
}

pub fn dsa_verify(p: &Big, q: &Big, g: &Big, y: &Big, hash: &[u8], r: &Big, s: &Big) -> bool {
    if r.is_zero() || s.is_zero() || *r >= *q || *s >= *q {
        return false;
    }
    let z = super::ec::bits2int(hash, q);
    let w = match s.invm(q) {
        Some(w) => w,
        None => return false,
    };
    let u1 = z.mulm(&w, q);
    let u2 = r.mulm(&w, q);
    let v = g.powm(&u1, p).mulm(&y.powm(&u2, p), p).rem(q);
    v == *r
}
