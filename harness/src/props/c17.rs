//! C17: every SmtString handed out contains only SMT-LIB characters.
use super::strs::*;
use crate::engine::*;
use crate::ensure;
use crate::regen::*;
use crate::src::Src;
use aws_smt_strings::regular_expressions::ReManager;
use aws_smt_strings::smt_regular_expressions as smt;
use aws_smt_strings::smt_strings::*;

const MAX: u32 = 0x2FFFF;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "A case is a text, an integer array or a string-function call. Non-trivial: the input has a code point \
               at least 0x80 (constructors), or the result of the call is not empty (functions). Distinct: different \
               input.",
        assumptions: &[
            "for text constructors offered characters above 0x2FFFF only well-formedness of the result is required, \
             and exact copying when all characters are valid",
        ],
        modes: vec![
            Mode::exh("single-code-points", singles, 8),
            Mode::exh("every-position", positions, 8),
            Mode::random("constructors", constructors, 900_000, 20_000_000, 30_000).both(),
            Mode::random("huge", huge, 800, 40_000, 100),
            Mode::random("literals", literals, 800_000, 20_000_000, 30_000),
            Mode::random("functions", functions, 180_000, 4_000_000, 6_000),
            Mode::random("regex-functions", regex_functions, 20_000, 1_000_000, 1_500).thread(),
        ],
    }
}

fn well(name: &str, s: &SmtString) -> R {
    ensure!(
        s.iter().all(|c| *c <= MAX),
        "{name} yields a string with code point {:#x}",
        s.iter().max().unwrap()
    );
    ensure!(s.is_good(), "{name}: is_good is false on {}", show_word(&codes(s)));
    let v: &[u32] = s.as_ref();
    ensure!(good_string(v), "{name}: good_string is false on {}", show_word(v));
    ensure!(
        s.len() == v.len() && s.is_empty() == v.is_empty() && (0..v.len()).all(|i| s.char(i) == v[i]),
        "{name}: accessors of {} are inconsistent",
        show_word(v)
    );
    Ok(())
}

/// the string can be turned into a regular expression that matches it and printed
fn usable(name: &str, s: &SmtString) -> R {
    match no_panic(|| {
        let mut re = ReManager::new();
        let e = re.str(s);
        let _ = s.to_string();
        re.str_in_re(s, e)
    }) {
        Ok(true) => Ok(()),
        Ok(false) => Err(Stop::Fail(format!("{name}: str({}) does not match the string", show_word(&codes(s))))),
        Err(p) => Err(Stop::Fail(format!("{name}: {} cannot be used as a regular expression: {p}", show_word(&codes(s))))),
    }
}

fn ints(name: &str, s: &SmtString, v: &[u32]) -> R {
    well(name, s)?;
    let want: Vec<u32> = v.iter().map(|x| if *x <= MAX { *x } else { 0xFFFD }).collect();
    ensure!(
        codes(s) == want,
        "{name}({}) = {}, expected {}",
        show_word(v),
        show_word(&codes(s)),
        show_word(&want)
    );
    Ok(())
}

fn text(name: &str, s: &SmtString, v: &[char]) -> R {
    well(name, s)?;
    if v.iter().all(|c| *c as u32 <= MAX) {
        let want: Vec<u32> = v.iter().map(|c| *c as u32).collect();
        ensure!(
            codes(s) == want,
            "{name}({}) = {} changes valid characters",
            show_word(&want),
            show_word(&codes(s))
        );
    }
    Ok(())
}

fn check_text(t: &[char]) -> R {
    let st: String = t.iter().collect();
    let a = SmtString::from(st.as_str());
    text("From<&str>", &a, t)?;
    usable("From<&str>", &a)?;
    let b = SmtString::from(st.clone());
    text("From<String>", &b, t)?;
    let c: SmtString = st.as_str().into();
    text("into", &c, t)?;
    for x in t {
        let s = SmtString::from(*x);
        text("From<char>", &s, &[*x])?;
        usable("From<char>", &s)?;
    }
    // a text without backslash denotes itself
    if !t.contains(&'\\') {
        let p = parse_smt_literal(&st);
        text("parse_smt_literal", &p, t)?;
        usable("parse_smt_literal", &p)?;
    }
    Ok(())
}

fn check_ints(v: &[u32]) -> R {
    let a = SmtString::from(v);
    ints("From<&[u32]>", &a, v)?;
    usable("From<&[u32]>", &a)?;
    ints("From<Vec<u32>>", &SmtString::from(v.to_vec()), v)?;
    for x in v {
        ints("From<u32>", &SmtString::from(*x), &[*x])?;
        ints("From<&[u32;1]>", &SmtString::from(&[*x]), &[*x])?;
    }
    if v.len() >= 3 {
        ints("From<&[u32;3]>", &SmtString::from(&[v[0], v[1], v[2]]), &v[..3])?;
    }
    ensure!(good_string(v) == v.iter().all(|c| *c <= MAX), "good_string({}) = {}", show_word(v), good_string(v));
    for c in v {
        ensure!(good_char(*c) == (*c <= MAX), "good_char({c:#x}) = {}", good_char(*c));
    }
    Ok(())
}

fn singles(s: &mut Src, ctx: &mut Ctx) -> R {
    // every valid code point, every char boundary above, a few large integers
    let k = s.below(0x30000 + 0x400) as u32;
    let c = if k < 0x30100 {
        k
    } else {
        let j = k - 0x30100;
        match j % 4 {
            0 => 0x40000u32.wrapping_mul(j / 4 + 1),
            1 => 0x10FF00 + j / 4,
            2 => u32::MAX - j / 4,
            _ => (1 << (j / 4 % 32)) | (j / 128),
        }
    };
    if !ctx.begin(k as u64, c >= 0x80, || format!("code point {c:#x}")) {
        return Ok(());
    }
    check_ints(&[c])?;
    if let Some(x) = char::from_u32(c) {
        check_text(&[x])?;
    }
    Ok(())
}

fn any_char(s: &mut Src) -> char {
    let c = match s.us(6) {
        0 => s.below(0x80) as u32,
        1 => *s.pick(SPECIAL),
        2 => s.below(0x30000) as u32,
        3 => 0x30000 + s.below(4) as u32,
        4 => 0x30000 + s.below(0x110000 - 0x30000) as u32,
        _ => 0x10FFFF - s.below(4) as u32,
    };
    char::from_u32(c).unwrap_or('?')
}
fn any_int(s: &mut Src) -> u32 {
    match s.us(7) {
        0 => s.below(0x80) as u32,
        1 => *s.pick(SPECIAL),
        2 => s.below(0x30000) as u32,
        3 => 0x30000 + s.below(4) as u32,
        4 => s.below(1 << 32) as u32,
        5 => u32::MAX - s.below(4) as u32,
        _ => 1 << s.below(32),
    }
}

fn constructors(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.us(9);
    if s.us(2) == 0 {
        let t: Vec<char> = (0..n).map(|_| any_char(s)).collect();
        if !ctx.begin(hash_of(&t), t.iter().any(|c| *c as u32 >= 0x80), || format!("text {t:?}")) {
            return Ok(());
        }
        check_text(&t)
    } else {
        let v: Vec<u32> = (0..n).map(|_| any_int(s)).collect();
        if !ctx.begin(hash_of(&v), v.iter().any(|c| *c >= 0x80), || format!("integers {v:x?}")) {
            return Ok(());
        }
        check_ints(&v)
    }
}

fn literals(s: &mut Src, ctx: &mut Ctx) -> R {
    // escapes, broken escapes, and characters outside the SMT range in every parser state
    let mut t = String::new();
    let n = 1 + s.us(8);
    for _ in 0..n {
        match s.us(7) {
            0 => t.push('\\'),
            1 => t.push_str("\\u"),
            2 => t.push_str("\\u{"),
            3 => {
                let k = s.us(7);
                for _ in 0..k {
                    t.push(*s.pick(&['0', '1', '2', '3', 'f', 'F', '9', 'a']));
                }
            }
            4 => t.push('}'),
            5 => {
                t.push_str("\\u{");
                t.push_str(s.pick(&["30000", "2ffff", "fffff", "3ffff", "12fff", "110000"]));
                t.push('}')
            }
            _ => t.push(any_char(s)),
        }
    }
    if !ctx.begin(hash_of(&t), t.contains('\\'), || format!("{t:?}")) {
        return Ok(());
    }
    let r = parse_smt_literal(&t);
    well("parse_smt_literal", &r)?;
    usable("parse_smt_literal", &r)
}

fn functions(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let p = word(s, &al, &[], 5);
    let a = word(s, &al, &[p.clone()], 12);
    let c = word(s, &al, &[p.clone()], 5);
    let (i, n) = (int(s, a.len()), int(s, a.len()));
    let code = match s.us(3) {
        0 => i,
        1 => 0x30000 + s.below(5) as i32 - 2,
        _ => s.below(1 << 32) as u32 as i32,
    };
    if !ctx.begin(hash_of(&(&a, &p, &c, i, n, code)), !a.is_empty(), || {
        format!("s={} p={} r={} i={i} n={n} code={code}", show_word(&a), show_word(&p), show_word(&c))
    }) {
        return Ok(());
    }
    let (x, y, z) = (sstr(&a), sstr(&p), sstr(&c));
    for (name, r) in [
        ("str_concat", str_concat(&x, &y)),
        ("str_at", str_at(&x, i)),
        ("str_substr", str_substr(&x, i, n)),
        ("str_replace", str_replace(&x, &y, &z)),
        ("str_replace_all", str_replace_all(&x, &y, &z)),
        ("str_from_code", str_from_code(code)),
        ("str_from_int", str_from_int(code)),
        ("EMPTY", EMPTY),
    ] {
        well(name, &r)?;
        usable(name, &r)?;
    }
    Ok(())
}

fn regex_functions(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cfg = CFG;
    cfg.max_ops = 6;
    let p = gen_prog(s, cfg);
    let r = p.last();
    let a = gen_word(s, &p.atoms, &p.dfa[r], 8);
    let t = gen_word(s, &p.atoms, &p.dfa[r], 3);
    if !ctx.begin(hash_of(&(&p.ops, &a, &t)), p.nontrivial(), || format!("{} on {}", p.show(), show_word(&a))) {
        return Ok(());
    }
    let e = build_smt(&p.ops)[r];
    let (x, y) = (sstr(&a), sstr(&t));
    for (name, v) in
        [("str_replace_re", smt::str_replace_re(&x, e, &y)), ("str_replace_re_all", smt::str_replace_re_all(&x, e, &y))]
    {
        well(name, &v)?;
        usable(name, &v)?;
    }
    let mut re = ReManager::new();
    let e = build(&mut re, &p.ops)[r];
    if let Some(w) = re.get_string(e) {
        well("get_string", &w)?;
        usable("get_string", &w)?;
    }
    Ok(())
}

/// long inputs, where a single character somewhere needs care
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = big_len(s, 140_000);
    let k = s.us(4);
    let kind = s.us(4);
    let base = *s.pick(&[97u32, 0xe9, 0x4e00, 0x2F800]);
    let at: Vec<(usize, u32)> = (0..k)
        .map(|_| {
            let i = if s.us(2) == 0 { n.saturating_sub(1 + s.us(4)) } else { s.us(n + 1) };
            (i, if kind == 1 { any_int(s) } else { any_char(s) as u32 })
        })
        .collect();
    if !ctx.begin(hash_of(&(n, base, &at, kind)), k > 0 || base > 0x7f, || {
        format!("{n} times {base:#x}, with (position, character) {at:x?}, way {kind}")
    }) {
        return Ok(());
    }
    ctx.label(if n >= 65_536 { "length >= 65536" } else { "length < 65536" });
    let mut v = vec![base; n];
    for (i, c) in at {
        if i < n {
            v[i] = c;
        }
    }
    let chars = |v: &[u32]| -> Vec<char> { v.iter().map(|c| char::from_u32(*c).unwrap()).collect() };
    let run = || -> R {
        match kind {
            0 => {
                let t = chars(&v);
                let st: String = t.iter().collect();
                text("From<&str>", &SmtString::from(st.as_str()), &t)?;
                text("From<String>", &SmtString::from(st.clone()), &t)?;
                if !t.contains(&'\\') {
                    text("parse_smt_literal", &parse_smt_literal(&st), &t)?;
                }
            }
            1 => {
                ints("From<&[u32]>", &SmtString::from(v.as_slice()), &v)?;
                ints("From<Vec<u32>>", &SmtString::from(v.clone()), &v)?;
                ensure!(good_string(&v) == v.iter().all(|c| *c <= MAX), "good_string is {} on a long array", good_string(&v));
            }
            2 => {
                let mut st: String = chars(&v).iter().collect();
                st.push_str(if k % 2 == 0 { "\\u{30000}" } else { "\\u{2ffff" });
                well("parse_smt_literal", &parse_smt_literal(&st))?;
            }
            _ => {
                let a = SmtString::from(v.as_slice());
                let p = SmtString::from(base);
                let r = SmtString::from(if k % 2 == 0 { "" } else { "\u{2FFFF}y" });
                for (name, x) in [
                    ("str_concat", str_concat(&a, &a)),
                    ("str_at", str_at(&a, n as i32 - 1)),
                    ("str_substr", str_substr(&a, n as i32 / 2, i32::MAX)),
                    ("str_replace", str_replace(&a, &p, &r)),
                    ("str_replace_all", str_replace_all(&a, &p, &r)),
                ] {
                    well(name, &x)?;
                }
            }
        }
        Ok(())
    };
    run().map_err(clip)
}

/// one character that needs care at every position of a run
fn positions(s: &mut Src, ctx: &mut Ctx) -> R {
    const INTS: [u32; 7] = [0x30000, u32::MAX, 0x2FFFF, 0x110000, 0x80000061, 0xFFFD, 0x40000];
    const CHARS: [char; 7] = ['\u{30000}', '\u{10FFFF}', '\u{2FFFF}', '\u{1F600}', '\u{e9}', '\u{ffff}', '\u{7f}'];
    let (n, p) = place(s, if ctx.tier == Tier::Quick { 80 } else { 300 });
    let f = *s.pick(&[97u32, 0xe9, 0x4e00]);
    let k = s.us(2 * INTS.len());
    if !ctx.begin(hash_of(&(n, p, f, k)), true, || format!("way {k} after {p} and before {} times {f:#x}", n - p)) {
        return Ok(());
    }
    if k < INTS.len() {
        let v = planted(f, n, p, &[INTS[k]]);
        ints("From<&[u32]>", &SmtString::from(v.as_slice()), &v)?;
        ints("From<Vec<u32>>", &SmtString::from(v.clone()), &v)?;
        ensure!(good_string(&v) == v.iter().all(|c| *c <= MAX), "good_string({}) = {}", show_word(&v), good_string(&v));
        return Ok(());
    }
    let c = CHARS[k - INTS.len()];
    let v = planted(f, n, p, &[c as u32]);
    let t: Vec<char> = v.iter().map(|c| char::from_u32(*c).unwrap()).collect();
    let mut st: String = t.iter().collect();
    text("From<&str>", &SmtString::from(st.as_str()), &t)?;
    text("parse_smt_literal", &parse_smt_literal(&st), &t)?;
    let i = t[..p].iter().map(|c| c.len_utf8()).sum::<usize>();
    for e in ["\\u{", "\\u{2fff", "\\u", "\\u00"] {
        // a broken escape just before the character
        let mut x = st.clone();
        x.insert_str(i, e);
        well("parse_smt_literal", &parse_smt_literal(&x))?;
    }
    text("From<String>", &SmtString::from(std::mem::take(&mut st)), &t)
}
