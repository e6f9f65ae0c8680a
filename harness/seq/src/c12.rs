//! C12: compression is lossless and decompression is total. C13: base64.
use engine::snapshot::{compress, decompress};
use engine::vault::{Base64Decodable, Base64Encodable};
use mc::*;

fn roundtrip(x: &[u8], out: &mut Outcome) -> bool {
    let c = match guard(|| compress(x)) {
        Ok(c) => c,
        Err(p) => {
            out.fail(format!("compress panics: {}", first_line(&p)), format!("input {}", brief(x)));
            return false;
        }
    };
    match guard(|| decompress(&c)) {
        Ok(Ok(y)) if y == x => true,
        Ok(Ok(y)) => {
            out.fail("round trip changes data", format!("input {} becomes {}", brief(x), brief(&y)));
            false
        }
        Ok(Err(e)) => {
            out.fail("compressed data is refused", format!("input {}: {e}", brief(x)));
            false
        }
        Err(p) => {
            out.fail(format!("decompress panics: {}", first_line(&p)), format!("compressed form of {}", brief(x)));
            false
        }
    }
}

fn brief(x: &[u8]) -> String {
    if x.len() <= 80 {
        format!("{x:?}")
    } else {
        format!("{:?}... {} bytes, hash {:x}", &x[..40], x.len(), hash(&x))
    }
}

/// Independent decoder of the LZ4 block format.
fn reference(mut i: &[u8]) -> Option<Vec<u8>> {
    fn int(i: &mut &[u8], mut n: usize) -> Option<usize> {
        if n == 15 {
            loop {
                let b = *i.first()?;
                *i = &i[1..];
                n += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        Some(n)
    }
    let mut o = vec![];
    while !i.is_empty() {
        let t = i[0];
        i = &i[1..];
        let l = int(&mut i, (t >> 4) as usize)?;
        if i.len() < l {
            return None;
        }
        o.extend_from_slice(&i[..l]);
        i = &i[l..];
        if i.is_empty() {
            break;
        }
        if i.len() < 2 {
            return None;
        }
        let off = i[0] as usize + 256 * i[1] as usize;
        i = &i[2..];
        let n = int(&mut i, (t & 15) as usize)? + 4;
        if off == 0 || off > o.len() {
            return None;
        }
        for _ in 0..n {
            o.push(o[o.len() - off]);
        }
    }
    Some(o)
}

fn total(x: &[u8], out: &mut Outcome) {
    match guard(|| decompress(x)) {
        Ok(Ok(y)) => {
            out.count("accepted", 1);
            match reference(x) {
                Some(z) if z == y => (),
                Some(z) => out.fail("decodes to something else", format!("{} gives {} instead of {}", brief(x), brief(&y), brief(&z))),
                None => out.fail("accepts malformed data", format!("{} gives {}", brief(x), brief(&y))),
            }
        }
        Ok(Err(_)) => out.count("refused", 1),
        Err(p) => out.fail(format!("decompress panics: {}", first_line(&p)), format!("input {}", brief(x))),
    }
}

/// Deterministic bytes without 4-byte repeats.
fn filler(n: usize, seed: u32) -> Vec<u8> {
    let mut s = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 17;
            s ^= s << 5;
            (s >> 11) as u8
        })
        .collect()
}

fn batched(rep: &mut Report, label: &str, total: u64, f: &(dyn Fn(u64, &mut Outcome) + Sync)) {
    let per = 1024u64;
    let o = run_cases(
        total.div_ceil(per),
        120,
        &|b, out| {
            for i in b * per..((b + 1) * per).min(total) {
                f(i, out);
                if out.failures.len() >= 10 {
                    return;
                }
            }
            out.count("inputs", ((b + 1) * per).min(total) - b * per);
        },
        &|b| format!("{label}: inputs {}..{}", b * per, (b + 1) * per),
    );
    rep.absorb(label, o);
}

fn word(mut i: u64, alpha: &[u8], len: usize) -> Vec<u8> {
    let mut v = vec![0; len];
    for k in (0..len).rev() {
        v[k] = alpha[(i % alpha.len() as u64) as usize];
        i /= alpha.len() as u64;
    }
    v
}

pub fn run_c12(tier: &str) -> i32 {
    let mut rep = Report::new("C12", tier, "model_checking");
    let th = rep.thorough();
    for (alpha, max) in [
        (&b"ab"[..], if th { 27 } else { 22 }),
        (&b"abc"[..], if th { 16 } else { 13 }),
        (&b"\0\xff\x0f\xf0"[..], if th { 12 } else { 11 }),
    ] {
        for len in 0..=max {
            if len > 6 && len + 2 < max {
                continue;
            }
            batched(&mut rep, &format!("round trip of all words of length {len} over {alpha:?}"), (alpha.len() as u64).pow(len as u32), &|i, out| {
                let x = word(i, alpha, len);
                roundtrip(&x, out);
            });
        }
    }
    // structured: [literals a][unit repeated][literals b][copy of an earlier part]
    let edge: Vec<usize> = (0..40).chain(260..300).chain(515..545).chain(770..800).chain([1024, 4095, 4096, 4097]).collect();
    let units: Vec<Vec<u8>> = vec![b"x".to_vec(), b"xy".to_vec(), b"xyz".to_vec(), b"wxyz".to_vec(), filler(7, 5), filler(19, 6)];
    let n = edge.len() as u64;
    let u = units.len() as u64;
    let tails = [0usize, 1, 3, 4, 5, 8, 14, 15, 16];
    let t = tails.len() as u64;
    batched(&mut rep, "round trip of literals, repeats, literals, copies around every length boundary", n * n * u * t, &|i, out| {
        let (a, r, un, tl) = (edge[(i / t / u / n) as usize], edge[(i / t / u % n) as usize], &units[(i / t % u) as usize], tails[(i % t) as usize]);
        let mut x = filler(a, 1);
        x.extend(un.iter().cycle().take(r));
        x.extend(filler(tl, 2));
        let copy: Vec<u8> = x.iter().copied().take(a.min(30)).collect();
        x.extend(copy);
        x.extend(filler(tl, 3));
        roundtrip(&x, out);
    });
    // distances around the 16-bit offset limit, over many table slots
    let heads = if th { 400 } else { 64 };
    let dist: Vec<usize> = (65520..65552).chain([4094, 4095, 4096, 4097, 32767, 32768, 131070, 131071, 131072]).collect();
    let dn = dist.len() as u64;
    let o = run_cases(
        heads * dn * 3,
        60,
        &|i, out| {
            let (h, d, kind) = (i / 3 / dn, dist[(i / 3 % dn) as usize], i % 3);
            let head = filler(24, 1000 + h as u32);
            let mut x = head.clone();
            match kind {
                0 => x.extend(std::iter::repeat(b'0').take(d - 24)),
                1 => x.extend(filler(d - 24, h as u32 + 7)),
                _ => x.extend(b"abcdefghij".iter().cycle().take(d - 24)),
            }
            x.extend_from_slice(&head);
            x.extend_from_slice(b"tail!");
            roundtrip(&x, out);
            out.count("inputs", 1);
        },
        &|i| format!("distance case {i}"),
    );
    rep.absorb("round trip of repeats at distances around the offset limits", o);

    // every length up to a bound and the lengths around round numbers
    let lens = long_lengths(if th { 20000 } else { 3000 }, if th { 25 } else { 23 });
    let o = run_cases(
        lens.len() as u64 * 3,
        60,
        &|i, out| {
            let n = lens[i as usize / 3];
            let x: Vec<u8> = match i % 3 {
                0 => filler(n, 77 + n as u32),
                1 => vec![b'0'; n],
                _ => filler(n / 2, 5).into_iter().chain(filler(n - n / 2, 5)).collect(),
            };
            roundtrip(&x, out);
            out.count("inputs", 1);
        },
        &|i| format!("length {}, kind {}", lens[i as usize / 3], i % 3),
    );
    rep.absorb("round trip of long data", o);

    // the decoder is total
    for len in 0..=3usize {
        batched(&mut rep, &format!("decode all byte strings of length {len}"), 256u64.pow(len as u32), &|i, out| {
            let x: Vec<u8> = (0..len).map(|k| (i >> (8 * (len - 1 - k))) as u8).collect();
            total(&x, out);
        });
    }
    let alpha = [0u8, 1, 2, 4, 0x0f, 0x10, 0x1f, 0x40, 0xf0, 0xff];
    for len in 4..=(if th { 9 } else { 7 }) {
        batched(&mut rep, &format!("decode all words of length {len} over {alpha:?}"), (alpha.len() as u64).pow(len as u32), &|i, out| {
            total(&word(i, &alpha, len), out);
        });
    }
    // all single-byte mutations, truncations and removals of real compressed data
    let seeds: Vec<Vec<u8>> = vec![
        vec![],
        b"a".to_vec(),
        b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa".to_vec(),
        b"abcabcabcabcabcabcXabcabcabc".to_vec(),
        filler(300, 9),
        {
            let mut x = filler(20, 3);
            x.extend(vec![0; 600]);
            x.extend(filler(20, 3));
            x
        },
    ];
    let comp: Vec<Vec<u8>> = seeds.iter().map(|s| compress(s)).collect();
    let mut jobs = vec![];
    for (s, c) in comp.iter().enumerate() {
        for p in 0..c.len() {
            jobs.push((s, p));
        }
    }
    let o = run_cases(
        jobs.len() as u64,
        60,
        &|i, out| {
            let (s, p) = jobs[i as usize];
            for b in 0..=255u8 {
                let mut x = comp[s].clone();
                x[p] = b;
                total(&x, out);
                x[p] = comp[s][p];
                x.insert(p, b);
                total(&x, out);
            }
            let mut x = comp[s].clone();
            x.remove(p);
            total(&x, out);
            total(&comp[s][..p], out);
            total(&comp[s][p..], out);
            out.count("inputs", 515);
        },
        &|i| format!("mutation {:?}", jobs[i as usize]),
    );
    rep.absorb("decode mutated compressed data", o);
    rep.total.sample(|| "compress(\"abababab..\")".into());
    finish(rep)
}

fn finish(mut rep: Report) -> i32 {
    let n = rep.count("inputs");
    rep.set("states", n);
    rep.set("transitions", rep.count("accepted") + rep.count("refused"));
    rep.set("traces_validated_against_impl", n);
    rep.set("exhaustive", true);
    rep.finish()
}

/// Every length up to `all`, and those around powers of two, multiples of three and round numbers up to 2^`bits`.
fn long_lengths(all: usize, bits: u32) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    for b in 8..=bits {
        for n in [1usize << b, 3 << (b - 1), 3 << (b - 2), 57 << (b - 6), 76 << (b - 7), 1000usize << (b.saturating_sub(10))] {
            for d in 0..7 {
                let k = n + d - 3;
                if k <= (1 << bits) + 4 {
                    v.push(k);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    // the long ones everywhere
    v.sort_by_key(|n| hash(n));
    v
}

const CHARS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn ref_enc(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(CHARS[(n >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// The bytes a well-formed text spells; the flag tells whether it is the canonical spelling.
fn ref_dec(t: &[u8]) -> Option<(Vec<u8>, bool)> {
    if t.len() % 4 != 0 {
        return None;
    }
    let pad = t.iter().rev().take_while(|c| **c == b'=').count();
    if pad > 2 {
        return None;
    }
    let mut bits: Vec<u8> = vec![];
    for c in &t[..t.len() - pad] {
        let v = CHARS.iter().position(|x| x == c)? as u8;
        for k in (0..6).rev() {
            bits.push(v >> k & 1);
        }
    }
    let n = t.len() / 4 * 3 - pad;
    let bytes = bits[..n * 8].chunks(8).map(|b| b.iter().fold(0, |a, x| a << 1 | x)).collect();
    Some((bytes, bits[n * 8..].iter().all(|b| *b == 0)))
}

fn enc(d: &[u8], out: &mut Outcome) {
    match guard(|| d.base64()) {
        Ok(s) if s == ref_enc(d) => match guard(|| Vec::<u8>::from_base64(&s)) {
            Ok(Ok(x)) if x == d => out.count("accepted", 1),
            r => out.fail("round trip", format!("{} -> {} -> {:?}", brief(d), brief(s.as_bytes()), r.map(|x| x.ok().map(|x| brief(&x))))),
        },
        r => out.fail("encoding", format!("{} -> {:?}, expected {}", brief(d), r.map(|s| brief(s.as_bytes())), brief(ref_enc(d).as_bytes()))),
    }
}

fn dec(t: &[u8], out: &mut Outcome) {
    let r = guard(|| Vec::<u8>::from_base64(t));
    let want = ref_dec(t);
    let show = if t.len() <= 200 { String::from_utf8_lossy(t).to_string() } else { brief(t) };
    let t = if t.len() <= 200 { t } else { &t[..40] };
    match (r, want) {
        (Ok(Ok(x)), Some((y, _))) if x == y => out.count("accepted", 1),
        (Ok(Err(_)), None) | (Ok(Err(_)), Some((_, false))) => out.count("refused", 1),
        (Ok(Ok(x)), None) => out.fail("bad text accepted", format!("{show:?} {t:?} -> {}", brief(&x))),
        (Ok(Ok(x)), Some((y, _))) => out.fail("wrong bytes", format!("{show:?} -> {}, expected {}", brief(&x), brief(&y))),
        (Ok(Err(_)), Some(_)) => out.fail("good text refused", format!("{show:?}")),
        (Err(p), _) => out.fail(format!("panic: {}", first_line(&p)), format!("{show:?} {t:?}")),
    }
}

pub fn run_c13(tier: &str) -> i32 {
    let mut rep = Report::new("C13", tier, "model_checking");
    let th = rep.thorough();
    for len in 0..=3usize {
        batched(&mut rep, &format!("encode all byte strings of length {len}"), 256u64.pow(len as u32), &|i, out| {
            let x: Vec<u8> = (0..len).map(|k| (i >> (8 * (len - 1 - k))) as u8).collect();
            enc(&x, out);
        });
    }
    let alpha = [0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0xfb, 0xff];
    for len in 4..=(if th { 8 } else { 6 }) {
        batched(&mut rep, &format!("encode all words of length {len} over {alpha:?}"), (alpha.len() as u64).pow(len as u32), &|i, out| {
            enc(&word(i, &alpha, len), out)
        });
    }
    let chars = b"AZaz059-_=+/ \n\0\xff~B";
    for len in 0..=(if th { 6 } else { 4 }) {
        batched(&mut rep, &format!("decode all texts of length {len} over {} characters", chars.len()), (chars.len() as u64).pow(len as u32), &|i, out| {
            dec(&word(i, chars, len), out)
        });
    }
    let eight = b"Az9-=/";
    for len in 5..=8 {
        batched(&mut rep, &format!("decode all texts of length {len} over {} characters", eight.len()), (eight.len() as u64).pow(len as u32), &|i, out| {
            dec(&word(i, eight, len), out)
        });
    }
    // every pair of byte values at every pair of positions of a valid quartet
    batched(&mut rep, "decode quartets with every pair of byte values at every pair of positions", 6 * 65536, &|i, out| {
        let (p, q) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][(i / 65536) as usize];
        let mut t = *b"Qm9v";
        t[p] = (i % 65536 / 256) as u8;
        t[q] = (i % 256) as u8;
        dec(&t, out);
        let mut long = b"AAAA".to_vec();
        long.extend_from_slice(&t);
        dec(&long, out);
    });
    // long data: every length up to a bound, and the lengths around powers of two and round numbers
    let lens = long_lengths(if th { 5000 } else { 1300 }, if th { 24 } else { 20 });
    batched(&mut rep, "encode and decode long data", lens.len() as u64 * 3, &|i, out| {
        let n = lens[i as usize / 3];
        let x: Vec<u8> = (0..n).map(|k| match i % 3 {
            0 => (k as u32).wrapping_mul(0x9e37_79b1).rotate_left(9) as u8,
            1 => 0,
            _ => 0xff,
        }).collect();
        enc(&x, out);
        dec(ref_enc(&x).as_bytes(), out);
        // one character less, or more
        let t = ref_enc(&x).into_bytes();
        if n > 0 {
            dec(&t[..t.len() - 1], out);
            let mut u = t.clone();
            u.push(b'=');
            dec(&u, out);
            u.extend_from_slice(b"===");
            dec(&u, out);
        }
    });
    // one bad character anywhere in a long text
    let bad = b"=+/ \n\0\xff";
    let m = if th { 20000 } else { 6000 };
    batched(&mut rep, "decode a long text with one bad character", m * bad.len() as u64, &|i, out| {
        let p = (i / bad.len() as u64) as usize;
        let mut t = vec![b'Q'; (p / 4 + 2) * 4];
        t[p] = bad[i as usize % bad.len()];
        dec(&t, out);
    });
    rep.total.sample(|| "[0xfb, 0xff] <-> \"-_8=\"".into());
    finish(rep)
}
