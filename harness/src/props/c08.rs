//! C08: parsing and printing of string literals.
use super::strs::*;
use crate::engine::*;
use crate::ensure;
use crate::regen::{hash_of, show_word, sstr, SPECIAL};
use crate::src::Src;
use aws_smt_strings::smt_strings::*;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "A case is a text given to parse_smt_literal, or a code point sequence that is printed and read back. \
               Non-trivial: the text contains a backslash, or the string contains a backslash, a double quote or a \
               character outside printable ASCII. Distinct: different text/sequence.",
        assumptions: &["texts contain SMT-LIB characters only (code points up to 0x2FFFF)"],
        modes: vec![
            Mode::exh("texts-8-symbols", exh_texts, 16),
            Mode::exh("print-single", print_single, 8).both(),
            Mode::exh("print-escape-alphabet", print_exh, 8),
            Mode::exh("every-position", positions, 16),
            Mode::random("random-texts", random_texts, 2_400_000, 40_000_000, 100_000),
            Mode::random("random-print", random_print, 1_600_000, 30_000_000, 100_000),
            Mode::random("huge", huge, 1_600, 80_000, 100),
            Mode::exh("texts-longer", exh_texts_long, 64).thorough_only(),
        ],
    }
}

/// SMT-LIB 2.6: \ud3d2d1d0, \u{d0} ... \u{d4d3d2d1d0} with hex digits and value at most 0x2FFFF;
/// everything else denotes itself
fn ref_parse(t: &[u32]) -> W {
    let hex = |c: u32| char::from_u32(c).and_then(|c| if c.is_ascii() { c.to_digit(16) } else { None });
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == '\\' as u32 && t.get(i + 1) == Some(&('u' as u32)) {
            if t.get(i + 2) == Some(&('{' as u32)) {
                let mut j = i + 3;
                let mut v = 0u64;
                while j < t.len() && j - (i + 3) < 6 {
                    match hex(t[j]) {
                        Some(d) => v = v * 16 + d as u64,
                        None => break,
                    }
                    j += 1;
                }
                let digits = j - (i + 3);
                if (1..=5).contains(&digits) && t.get(j) == Some(&('}' as u32)) && v <= 0x2FFFF {
                    out.push(v as u32);
                    i = j + 1;
                    continue;
                }
            } else if i + 6 <= t.len() {
                let ds: Option<Vec<u32>> = t[i + 2..i + 6].iter().map(|c| hex(*c)).collect();
                if let Some(ds) = ds {
                    out.push(ds.iter().fold(0, |v, d| v * 16 + d));
                    i += 6;
                    continue;
                }
            }
        }
        out.push(t[i]);
        i += 1;
    }
    out
}

fn check_parse(t: &[u32]) -> R {
    let text: String = t.iter().map(|c| char::from_u32(*c).expect("char")).collect();
    let got = codes(&parse_smt_literal(&text));
    let want = ref_parse(t);
    ensure!(
        got == want,
        "parse_smt_literal({}) = {}, expected {}",
        show_word(t),
        show_word(&got),
        show_word(&want)
    );
    Ok(())
}

/// body of a literal with doubled quotes undone
fn body(lit: &str) -> Result<String, String> {
    let b = lit
        .strip_prefix('"')
        .and_then(|x| x.strip_suffix('"'))
        .ok_or("the literal is not enclosed in double quotes")?;
    if lit.len() < 2 {
        return Err("the literal is not enclosed in double quotes".into());
    }
    let mut r = String::new();
    let mut it = b.chars();
    while let Some(c) = it.next() {
        if c == '"' && it.next() != Some('"') {
            return Err("a double quote of the body is not doubled".into());
        }
        r.push(c);
    }
    Ok(r)
}

fn check_print(w: &[u32]) -> R {
    let s = sstr(w);
    let lit = s.to_string();
    let sw = show_word(w);
    ensure!(
        lit.chars().all(|c| (' '..='~').contains(&c)),
        "Display of {sw} is {lit:?}: not printable ASCII"
    );
    let b = match body(&lit) {
        Ok(b) => b,
        Err(e) => return Err(Stop::Fail(format!("Display of {sw} is {lit}: {e}"))),
    };
    // read back by the reference semantics and by the crate
    let cps: W = b.chars().map(|c| c as u32).collect();
    let denoted = ref_parse(&cps);
    ensure!(denoted == w, "{sw} prints as {lit}, which denotes {}", show_word(&denoted));
    let back = codes(&parse_smt_literal(&b));
    ensure!(back == w, "{sw} prints as {lit}, which parse_smt_literal reads as {}", show_word(&back));
    Ok(())
}

fn check_char(c: u32) -> R {
    for (name, t) in [("char_to_smt", char_to_smt(c)), ("smt_char_as_string", smt_char_as_string(c))] {
        ensure!(t.chars().all(|x| (' '..='~').contains(&x)), "{name}({c:#x}) = {t:?}: not printable ASCII");
        let lit = format!("\"{t}\"");
        match body(&lit) {
            Ok(b) => {
                let back = codes(&parse_smt_literal(&b));
                ensure!(back == [c], "{name}({c:#x}) = {t} denotes {}", show_word(&back));
            }
            Err(e) => return Err(Stop::Fail(format!("{name}({c:#x}) = {t}: {e}"))),
        }
    }
    Ok(())
}

const SYM: [char; 8] = ['\\', 'u', '{', '}', '0', '2', 'F', 'g'];

fn text_case(t: &[u32], ctx: &mut Ctx) -> R {
    if !ctx.begin(hash_of(&t), t.contains(&('\\' as u32)), || format!("text {}", show_word(t))) {
        return Ok(());
    }
    check_parse(t)
}

fn exh_texts(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.us(8);
    // up to 5 free symbols; longer texts start with \u or \u{
    let mut t: W = match n {
        0..=5 => vec![],
        6 => vec!['\\' as u32, 'u' as u32],
        _ => vec!['\\' as u32, 'u' as u32, '{' as u32],
    };
    let free = if n <= 5 { n } else { 5 };
    for _ in 0..free {
        t.push(*s.pick(&SYM) as u32);
    }
    text_case(&t, ctx)
}
fn exh_texts_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.us(3);
    let mut t: W = match n {
        0 => vec![],
        1 => vec!['\\' as u32, 'u' as u32],
        _ => vec!['\\' as u32, 'u' as u32, '{' as u32],
    };
    for _ in 0..8 {
        t.push(*s.pick(&SYM) as u32);
    }
    text_case(&t, ctx)
}

fn print_single(s: &mut Src, ctx: &mut Ctx) -> R {
    let c = s.below(0x30000) as u32;
    let odd = !(0x20..0x7f).contains(&c) || c == '"' as u32 || c == '\\' as u32;
    if !ctx.begin(c as u64, odd, || format!("character {c:#x}")) {
        return Ok(());
    }
    check_print(&[c])?;
    check_char(c)
}

fn print_case(w: &[u32], ctx: &mut Ctx) -> R {
    let odd = w.iter().any(|c| !(0x20..0x7f).contains(c) || *c == '"' as u32 || *c == '\\' as u32);
    if !ctx.begin(hash_of(&w), odd, || format!("string {}", show_word(w))) {
        return Ok(());
    }
    check_print(w)
}

fn print_exh(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.us(8);
    let free = n.min(5);
    let mut w: W = match n {
        0..=5 => vec![],
        6 => vec!['\\' as u32, 'u' as u32],
        _ => vec!['\\' as u32, 'u' as u32, '{' as u32],
    };
    const S: [u32; 8] = ['\\' as u32, 'u' as u32, '{' as u32, '}' as u32, '0' as u32, '"' as u32, 0x0a, 'F' as u32];
    for _ in 0..free {
        w.push(*s.pick(&S));
    }
    print_case(&w, ctx)
}

fn hexrun(s: &mut Src, n: usize, out: &mut W) {
    const H: &[u8] = b"0123456789abcdefABCDEF";
    for _ in 0..n {
        out.push(H[s.us(H.len())] as u32);
    }
}

/// pieces of escape sequences, valid and nearly valid
fn fragment(s: &mut Src, out: &mut W) {
    let p = |out: &mut W, t: &str| out.extend(t.chars().map(|c| c as u32));
    match s.us(13) {
        0 => p(out, "\\"),
        1 => p(out, "\\u"),
        2 => p(out, "\\u{"),
        3 => {
            p(out, "\\u");
            hexrun(s, 4, out)
        }
        4 => {
            p(out, "\\u{");
            let n = 1 + s.us(5);
            hexrun(s, n, out);
            p(out, "}")
        }
        5 => {
            let n = s.us(7);
            hexrun(s, n, out)
        }
        6 => p(out, "}"),
        7 => {
            // around the largest value
            let v = *s.pick(&["2FFFF", "30000", "2fffe", "3FFFF", "FFFFF", "0", "00000", "10000", "1ffff", "2F", "02FFFF"]);
            p(out, "\\u{");
            p(out, v);
            p(out, "}")
        }
        8 => {
            p(out, "\\u");
            let n = s.us(4);
            hexrun(s, n, out)
        }
        9 => out.push(*s.pick(&['g', 'G', 'x', 'U', 'u', '"', ' ', '{', '\u{7f}', 'n', '\'']) as u32),
        10 => {
            // characters that look like digits
            let c = *s.pick(&[0x660u32, 0xff11, 0xff21, 0x1d7ce, 0x2170, 0xb2, 0x3b1, 0x410])
                ;
            out.push(c)
        }
        11 => {
            let c = *s.pick(SPECIAL);
            out.push(if char::from_u32(c).is_some() { c } else { 0xfffd })
        }
        _ => {
            p(out, "\\u{");
            let n = s.us(8);
            hexrun(s, n, out);
            if s.us(2) == 0 {
                p(out, "}")
            }
        }
    }
}

fn random_texts(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut t = vec![];
    let n = 1 + s.us(6);
    for _ in 0..n {
        fragment(s, &mut t);
    }
    // small damage
    if s.us(3) == 0 && !t.is_empty() {
        let i = s.us(t.len());
        match s.us(3) {
            0 => {
                t.remove(i);
            }
            1 => t.insert(i, *s.pick(&SYM) as u32),
            _ => t[i] = *s.pick(&SYM) as u32,
        }
    }
    ctx.label(if ref_parse(&t) == t { "text denotes itself" } else { "text with escapes" });
    text_case(&t, ctx)
}

fn random_print(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = vec![];
    let n = 1 + s.us(5);
    for _ in 0..n {
        match s.us(3) {
            0 => fragment(s, &mut w),
            1 => w.push(*s.pick(SPECIAL)),
            _ => w.push(s.below(0x30000) as u32),
        }
    }
    print_case(&w, ctx)
}

/// long texts and strings: escapes, broken escapes and plain runs in any position
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = big_len(s, 140_000);
    let mut r = Src::random(s.below(1 << 32));
    let runs = s.us(3);
    let print = s.us(2) == 1;
    let mut w = vec![];
    while w.len() < n {
        match (r.us(3), runs) {
            (0, 0) | (_, 1) => fragment(&mut r, &mut w),
            _ => {
                // a run of one piece
                let mut f = vec![];
                fragment(&mut r, &mut f);
                let k = 1 + r.us(if runs == 2 { 3_000 } else { 40 });
                for _ in 0..k {
                    w.extend(&f);
                }
            }
        }
    }
    w.truncate(n);
    let odd = w.iter().any(|c| !(0x20..0x7f).contains(c) || *c == '\\' as u32);
    if !ctx.begin(hash_of(&(&w, print)), odd, || {
        format!("{} of {} characters: {}", if print { "string" } else { "text" }, w.len(), show_word(&w))
    }) {
        return Ok(());
    }
    ctx.label(if w.len() >= 65_536 { "length >= 65536" } else { "length < 65536" });
    if print { check_print(&w) } else { check_parse(&w) }.map_err(clip)
}

/// one piece that needs care at every position of a run
fn positions(s: &mut Src, ctx: &mut Ctx) -> R {
    const TEXTS: [&str; 16] = [
        "\\u0041",
        "\\u{41}",
        "\\u{2ffff}",
        "\\u{30000}",
        "\\",
        "\\u",
        "\\u{",
        "\\u{4",
        "\\u004",
        "\\u004g",
        "\\u{}",
        "\\u{000041}",
        "\\\\u0041",
        "\\u\\u0041",
        "\"",
        "\u{e9}",
    ];
    const CHARS: [u32; 10] = [0x5c, 0x22, 0, 0x1f, 0x7f, 0x80, 0xd800, 0xffff, 0x10000, 0x2FFFF];
    let (n, p) = place(s, if ctx.tier == Tier::Quick { 70 } else { 300 });
    let f = *s.pick(&[b'x' as u32, b'0' as u32, b'\\' as u32, b'u' as u32]);
    let k = s.us(TEXTS.len() + CHARS.len());
    if k < TEXTS.len() {
        let w: W = TEXTS[k].chars().map(|c| c as u32).collect();
        text_case(&planted(f, n, p, &w), ctx).map_err(clip)
    } else {
        print_case(&planted(f, n, p, &[CHARS[k - TEXTS.len()]]), ctx).map_err(clip)
    }
}
