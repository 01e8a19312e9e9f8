//! Seeded workload, fault and schedule generators.
use crate::case::*;
use crate::model::{apply_edits, offset16};
use serde_json::{json, Value};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x5851F42D4C957F2D); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn r(&mut self, a: usize, b: usize) -> usize { a + self.n(b - a + 1) }
    /// true with probability p percent
    pub fn p(&mut self, p: usize) -> bool { self.n(100) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
    pub fn f(&mut self, v: &[&str]) -> String { self.pick(v).to_string() }
}

// ---------------------------------------------------------------- Move texts
const IDENTS: [&str; 12] = ["x", "y", "a1", "balance", "Coin", "T", "S", "acc", "m", "value", "foo", "Self"];
const TYPES: [&str; 10] = ["u8", "u64", "u128", "bool", "address", "vector<u8>", "&S", "&mut T", "(u8, bool)", "0x1::M::T<u8>"];
fn expr(r: &mut Rng, d: usize) -> String {
    if d == 0 || r.p(30) {
        return r.f(&["1", "0", "10u8", "true", "false", "x", "y", "@0x1", "0x1", "b\"abc\"", "x\"00ff\"", "S {}", "copy x", "move y", "vector[1, 2]", "()", "*x", "&y", "&mut x", "x.f"]);
    }
    match r.n(14) {
        0 => format!("{} + {}", expr(r, d - 1), expr(r, d - 1)),
        1 => format!("{} * {}", expr(r, d - 1), expr(r, d - 1)),
        2 => format!("({})", expr(r, d - 1)),
        3 => format!("{}({}, {})", r.f(&IDENTS), expr(r, d - 1), expr(r, d - 1)),
        4 => format!("M::{}<u8>({})", r.f(&IDENTS), expr(r, d - 1)),
        5 => format!("if ({}) {} else {}", expr(r, d - 1), expr(r, d - 1), expr(r, d - 1)),
        6 => format!("{} == {}", expr(r, d - 1), expr(r, d - 1)),
        7 => format!("!{}", expr(r, d - 1)),
        8 => format!("{} as u64", expr(r, d - 1)),
        9 => format!("S {{ f: {}, g: {} }}", expr(r, d - 1), expr(r, d - 1)),
        10 => format!("{{ {} }}", expr(r, d - 1)),
        11 => format!("{} && {} || {}", expr(r, d - 1), expr(r, d - 1), expr(r, d - 1)),
        12 => format!("{} << 1 >= {}", expr(r, d - 1), expr(r, d - 1)),
        _ => format!("({}, {})", expr(r, d - 1), expr(r, d - 1)),
    }
}
fn stmt(r: &mut Rng) -> String {
    match r.n(12) {
        0 => format!("let {} = {};", r.f(&IDENTS), expr(r, 2)),
        1 => format!("let {}: {};", r.f(&IDENTS), r.f(&TYPES)),
        2 => format!("{} = {};", r.f(&IDENTS), expr(r, 2)),
        3 => format!("while ({}) {{ {}; }};", expr(r, 1), expr(r, 1)),
        4 => "loop { break };".into(),
        5 => format!("abort {};", expr(r, 1)),
        6 => format!("return {};", expr(r, 1)),
        7 => format!("assert({}, 1);", expr(r, 1)),
        8 => format!("let (a, b) = ({}, {});", expr(r, 1), expr(r, 1)),
        9 => format!("*{} = {};", r.f(&["x", "y"]), expr(r, 1)),
        10 => format!("let S {{ f, g: h }} = {};", expr(r, 1)),
        _ => format!("{};", expr(r, 2)),
    }
}
fn item(r: &mut Rng, nl: &str) -> String {
    match r.n(10) {
        0 => format!("    struct {} has copy, drop {{ f: u8, g: {} }}{nl}", r.f(&["S", "T", "Coin"]), r.f(&TYPES)),
        1 => format!("    use 0x1::{};{nl}", r.f(&["M", "Coin::{Self, T as U}", "Acc::f", "M as N"])),
        2 => format!("    const C{}: u64 = {};{nl}", r.n(9), r.n(100)),
        3 => format!("    native fun n{}(x: u8): bool;{nl}", r.n(9)),
        4 => format!("    // {}{nl}", comment(r)),
        5 => format!("    struct R<T: copy> {{}}{nl}"),
        6 => format!("    /* {} */{nl}", comment(r)),
        _ => {
            let mut s = format!("    {}fun {}{}({}: {}){} {{{nl}", r.f(&["", "public ", "public(script) "]), r.f(&IDENTS), r.f(&["", "<T>", "<T: copy>"]), r.f(&["x", "y", "acc"]), r.f(&TYPES), r.f(&["", ": u8", ": bool"]));
            for _ in 0..r.r(0, 4) { s.push_str(&format!("        {}{nl}", stmt(r))); }
            s.push_str(&format!("    }}{nl}"));
            s
        }
    }
}
fn comment(r: &mut Rng) -> String { r.f(&["plain", "naïve", "日本語 text", "emoji 😀 here", "a 𐐷 b", "мир", "x // y", "é", "tab\there"]) }
/// One broken construct the parser reports an error for.
pub fn bad_item(r: &mut Rng, nl: &str) -> String {
    match r.n(12) {
        0 => format!("    fun {}( {{}}{nl}", r.f(&IDENTS)),
        1 => format!("    struct {} {{ f }}{nl}", r.f(&["S", "T"])),
        2 => format!("    use 0x1::;{nl}"),
        3 => format!("    const : u8 = 1;{nl}"),
        4 => format!("    fun f() {{ let = 1; }}{nl}"),
        5 => format!("    fun f() {{ x + ; }}{nl}"),
        6 => format!("    fun f() {{ /* {} */ let  ; }}{nl}", comment(r)),
        7 => format!("    fun f() {{ f(1, ; }}{nl}"),
        8 => format!("    fun f() {{ if ( x; }}{nl}"),
        9 => format!("    fun {nl}"),
        10 => format!("    fun f() {{ b\"{}\" let; }}{nl}", r.f(&["abc", "x y"])),
        _ => format!("    fun f() {{ S {{ f: }} }}{nl}"),
    }
}
/// A document: mostly well-formed Move with some errors.
pub fn text(r: &mut Rng, size: usize, errs: usize, crlf: bool) -> String {
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut s = String::new();
    if r.p(20) { s.push_str(&format!("// {}{nl}", comment(r))); }
    let kind = r.n(4);
    match kind { 0 => s.push_str(&format!("address 0x1 {{{nl}module M {{{nl}")), 1 => s.push_str(&format!("script {{{nl}")), _ => s.push_str(&format!("module 0x1::M{} {{{nl}", r.n(5))) }
    for _ in 0..r.r(0, size) { if r.p(errs) { s.push_str(&bad_item(r, nl)) } else { s.push_str(&item(r, nl)) } }
    s.push_str(&format!("}}{nl}"));
    if kind == 0 { s.push_str(&format!("}}{nl}")); }
    s
}
const JUNK: [&str; 40] = ["{", "}", "(", ")", "[", "]", "<", ">", ";", ",", ":", "::", "=", "==", "+", "-", "&", "&mut", "*", "!", ".", "..", "@", "#", "#[", "\"", "b\"", "x\"", "/*", "*/", "//", "\n", "0x", "0xZ", "fun", "struct", "spec", "let", "é", "😀"];
const JUNK2: [&str; 44] = ["module", "address", "script", "use", "const", "native", "public", "friend", "has", "acquires", "return", "abort", "loop", "while", "if", "else", "as", "move", "copy", "true", "false", "'", "`", "~", "$", "?", "\\", "%", "^", "|", "||", "&&", "<<", ">>", ">=", "==>", "\t", " ", "\u{a0}", "\u{feff}", "\u{0}", "9999999999999999999999", "spec fun", "0x1::"];
/// A long document: many lines, one very long line or many diagnostics, with errors near its end.
pub fn big_text(r: &mut Rng, crlf: bool) -> String {
    let nl = if crlf { "\r\n" } else { "\n" };
    let pad = *r.pick(&["x", "\u{e9}", "\u{1f600}", " "]);
    match r.n(4) {
        0 => { let n = *r.pick(&[300usize, 2000, 66_000]); let cap = 140_000 / (nl.len() + 1); format!("module 0x1::M {{{nl}{}{}}}{nl}", format!(" {nl}").repeat(n.min(cap)), bad_item(r, nl)) }
        1 => { let n = *r.pick(&[200usize, 300, 9000, 66_000]); let n = n.min(140_000 / pad.len()); format!("module 0x1::M {{ /*{}*/ fun f() {{ let ; }} }}{nl}", pad.repeat(n)) }
        2 => { let n = r.r(20, 200); let mut t = format!("module 0x1::M {{{nl}"); for _ in 0..n { t.push_str(&bad_item(r, nl)); } t.push_str("}"); t }
        _ => text(r, 400, 20, crlf),
    }
}
pub fn junk(r: &mut Rng) -> String {
    match r.n(10) { 0..=4 => r.f(&JUNK), 5..=8 => r.f(&JUNK2), _ => { let c = r.f(&["{", "(", "[", "<", "/*", "if (", "b\"", "fun f() {"]); let n = r.r(1, 40); c.repeat(n) } }
}
/// A character from anywhere: controls, ASCII, the edges of the UTF-8 length classes, line separators.
fn any_char(r: &mut Rng) -> char {
    match r.n(8) {
        0 => *r.pick(&['\r', '\u{b}', '\u{c}', '\u{0}', '\u{1b}', '\u{7f}', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{200b}', '\u{301}']),
        1 => *r.pick(&['\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffd}', '\u{e000}', 'ß', 'Ω', '中', '𝒳']),
        2 => char::from_u32(r.n(0x800) as u32).unwrap_or('x'),
        3 => char::from_u32(r.n(0x11_0000) as u32).unwrap_or('é'),
        _ => (r.r(0, 127) as u8) as char,
    }
}
const TOKENS: [&str; 100] = [
    "abort", "acquires", "as", "break", "continue", "copy", "else", "false", "fun", "if", "let", "loop", "module", "move", "native", "public", "return", "script", "spec", "struct", "true", "use", "while", "const", "friend", "phantom", "has", "address", "invariant", "key", "store", "drop", "assert",
    "&", "&mut", "&&", "|", "||", "=", "==", "==>", "!", "!=", "<", "<=", "<<", "<==>", ">", ">=", ">>", ":", "::", "%", "(", ")", "[", "]", "*", "+", ",", "-", ".", "..", "/", ";", "^", "{", "}", "#", "@", "_", "x", "T", "S", "f", "M", "Self",
    "0", "1", "10u8", "7u64", "9u128", "0x1", "0xg", "0x", "1_000", "x\"00ff\"", "b\"a\\\"b\"", "b\"\\中\"", "b\"\\😀\\é", "x\"é\\\\\"", "b\"中", "b\"", "x\"0", "\"s\"", "'c'", "/*c*/", "/**/", "//c\n", "/*",
];
/// Tokens in any order, with odd white space between them.
pub fn salad(r: &mut Rng) -> String {
    let mut s = String::new();
    let few: Vec<&str> = (0..r.r(2, 12)).map(|_| *r.pick(&TOKENS)).collect();
    let narrow = r.p(60);
    if r.p(70) { s.push_str(&r.f(&["module 0x1::M { ", "module 0x1::M { fun f() { ", "module 0x1::M { fun f(x: ", "script { fun f() { let ", "module 0x1::M { struct S { ", "module 0x1::M { struct S", "address 0x1 { module M { ", "module 0x1::M { fun f() { let x = ", "module 0x1::M { fun f<", "script { ", "module ", "address ", "module 0x1::M { fun f(", "module 0x1::M { fun f() { S { "])); }
    for _ in 0..r.r(0, 30) {
        if r.p(4) { let k = r.r(1, 3); for _ in 0..k { s.push(any_char(r)); } } else { s.push_str(if narrow { *r.pick(&few) } else { *r.pick(&TOKENS) }); }
        s.push_str(*r.pick(&[" ", " ", " ", "", "", "\n", "\t", "\r\n", "  ", " \r", "\r\r\n", "\u{a0}"]));
    }
    if r.p(50) { s.push_str(&r.f(&["}", " } }", "; } }\n", ")", "\"", "\n"])); }
    s
}
/// Token-like pieces of a text: words, white space runs, single other characters.
fn pieces(t: &str) -> Vec<&str> {
    let class = |c: char| if c.is_alphanumeric() || c == '_' { 0 } else if c.is_whitespace() { 1 } else { 2 };
    let mut v = vec![];
    let mut start = 0;
    let mut prev: Option<usize> = None;
    for (i, c) in t.char_indices() {
        let k = class(c);
        if i > start && (prev != Some(k) || k == 2) { v.push(&t[start..i]); start = i; }
        prev = Some(k);
    }
    if start < t.len() { v.push(&t[start..]); }
    v
}
/// Mutate a text at token level: drop, duplicate, swap, replace, insert or cut off.
pub fn mutate_tokens(r: &mut Rng, t: &str) -> String {
    let p = pieces(t);
    if p.is_empty() { return salad(r); }
    let mut v: Vec<String> = p.into_iter().map(String::from).collect();
    for _ in 0..r.r(1, 4) {
        if v.is_empty() { break; }
        let i = r.n(v.len());
        match r.n(8) {
            0 | 1 => { v.remove(i); }
            2 => { let x = v[i].clone(); v.insert(i, x); }
            3 => { let j = r.n(v.len()); v.swap(i, j); }
            4 => v[i] = r.f(&TOKENS),
            5 => v.insert(i, r.f(&TOKENS)),
            6 => { if r.p(40) { v.truncate(i) } else { let j = (i + r.n(8)).min(v.len()); v.drain(i..j); } }
            _ => v[i] = any_char(r).to_string(),
        }
    }
    v.concat()
}
/// A text nobody wrote on purpose.
pub fn hostile(r: &mut Rng, base: &str) -> String {
    let n = *r.pick(&[1usize, 2, 4]);
    match r.n(8) {
        0 | 1 => salad(r),
        2 | 3 | 4 => { let e = *r.pick(&[0usize, 30, 80]); let c = r.p(15); let t = if r.p(40) && !base.is_empty() { base.to_string() } else { text(r, n, e, c) }; mutate_tokens(r, &t) }
        5 => { let t = text(r, n, 20, false); mutate(r, &t) }
        6 => { let c = r.p(30); let t = text(r, n, 30, c); let i = char_pos(&t, r); let mut t = t; t.insert(i, any_char(r)); t }
        _ => { let mut s = String::new(); for _ in 0..r.r(1, 12) { s.push(any_char(r)); } s }
    }
}
fn char_pos(t: &str, r: &mut Rng) -> usize { let mut i = r.n(t.len() + 1); while !t.is_char_boundary(i) { i -= 1; } i }
/// Mutate a text at character level.
pub fn mutate(r: &mut Rng, t: &str) -> String {
    let mut s = t.to_string();
    for _ in 0..r.r(1, 3) {
        let i = char_pos(&s, r);
        match r.n(6) {
            0 => s.insert_str(i, &junk(r)),
            1 => { let j = char_pos(&s, r); let (a, b) = (i.min(j), i.max(j)); let b = if b - a > 12 && r.p(70) { let mut e = a + 6; while !s.is_char_boundary(e) { e += 1; } e } else { b }; s.replace_range(a..b, ""); }
            2 => s.truncate(i),
            3 => { let j = char_pos(&s, r); let (a, b) = (i.min(j), i.max(j)); if b - a < 400 { let c = s[a..b].to_string(); s.insert_str(b, &c); } }
            4 => { if let Some(c) = s[i..].chars().next() { s.replace_range(i..i + c.len_utf8(), &junk(r)); } }
            _ => s.insert_str(i, &format!(" {} ", junk(r))),
        }
    }
    s
}

// ---------------------------------------------------------------- edits
fn line_lens(t: &str) -> Vec<usize> {
    t.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l).chars().map(char::len_utf16).sum()).collect()
}
/// A random legal LSP position of `t`. With `past` the character may lie beyond the end of the line.
pub fn pos(r: &mut Rng, t: &str, past: bool) -> (u32, u32) {
    let l = line_lens(t);
    loop {
        let line = r.n(l.len());
        let ch = if past && r.p(15) { l[line] + r.r(1, 30) } else { r.n(l[line] + 1) };
        if offset16(t, line as u32, ch as u32).is_some() { return (line as u32, ch as u32); }
    }
}
pub struct EditCfg { pub ranged: usize, pub past: bool, pub crlf: bool, pub wild: usize, pub size: usize, pub errs: usize }
pub fn edit(r: &mut Rng, t: &str, c: &EditCfg) -> Edit {
    let nl = if c.crlf { "\r\n" } else { "\n" };
    if r.p(if t.len() > 5000 { 25 } else { 8 }) { let ranged = c.ranged > 0 && r.p(50); if let Some(e) = overtype(r, t, ranged) { return e; } }
    if !r.p(c.ranged) {
        let text = match r.n(4) {
            0 => text(r, c.size, c.errs, c.crlf),
            1 if r.p(c.wild) => mutate(r, t),
            2 => { let i = line_start(r, t); format!("{}{}{}", &t[..i], if r.p(50) { bad_item(r, nl) } else { item(r, nl) }, &t[i..]) }
            _ => text(r, c.size, c.errs, c.crlf),
        };
        return Edit { range: None, text };
    }
    if c.crlf && t.len() > 1500 && r.p(40) { // whole lines pasted from elsewhere
        let mut i = line_start(r, t);
        for _ in 0..6 { if t[i..].starts_with("    ") && t[i + 4..].starts_with(|c: char| c.is_alphabetic()) { break; } i = line_start(r, t); } // mostly between items
        let line = t[..i].matches('\n').count() as u32;
        return Edit { range: Some([line, 0, line, 0]), text: if r.p(30) { bad_item(r, nl) } else { item(r, nl) } };
    }
    let a = pos(r, t, c.past);
    let b = if r.p(50) { a } else { pos(r, t, c.past) };
    let (oa, ob) = (offset16(t, a.0, a.1).unwrap(), offset16(t, b.0, b.1).unwrap());
    let (mut a, mut b) = if oa <= ob { (a, b) } else { (b, a) };
    if ob.max(oa) - oa.min(ob) > 60 && r.p(80) { if r.p(50) { b = a } else { a = b } }
    if a.0 == b.0 && a.1 > b.1 { std::mem::swap(&mut a, &mut b); }
    let ins = match r.n(8) {
        0 => String::new(),
        1 => bad_item(r, nl),
        2 => item(r, nl),
        3 => comment(r),
        4 if r.p(c.wild) => junk(r),
        5 => nl.to_string(),
        6 => r.f(&IDENTS),
        _ => r.f(&[" ", ";", "let ", "fun f(", "}", "{", "x y z"]),
    };
    Edit { range: Some([a.0, a.1, b.0, b.1]), text: ins }
}
/// Overwrite a few characters, so that the text stays exactly as long as it was.
fn overtype(r: &mut Rng, t: &str, ranged: bool) -> Option<Edit> {
    let i = if t.len() > 5000 && r.p(60) { let from = 4096 + r.n(t.len() - 4096); let mut i = from; while !t.is_char_boundary(i) { i -= 1; } i } else { char_pos(t, r) };
    let n = t[i..].chars().take(r.r(1, 3)).take_while(|c| c.is_ascii() && *c != '\n' && *c != '\r').count();
    if n == 0 { return None; }
    let new: String = (0..n).map(|_| *r.pick(&[';', 'x', ' ', '{', '}', '(', ')', ',', '1', ':', '=', '/'])).collect();
    if new == t[i..i + n] { return None; }
    if !ranged { return Some(Edit { range: None, text: format!("{}{}{}", &t[..i], new, &t[i + n..]) }); }
    let start = t[..i].rfind('\n').map_or(0, |k| k + 1);
    let line = t[..i].matches('\n').count() as u32;
    let ch: u32 = t[start..i].chars().map(|c| c.len_utf16() as u32).sum();
    Some(Edit { range: Some([line, ch, line, ch + n as u32]), text: new })
}
fn line_start(r: &mut Rng, t: &str) -> usize {
    let v: Vec<usize> = std::iter::once(0).chain(t.match_indices('\n').map(|x| x.0 + 1)).collect();
    *r.pick(&v)
}

// ---------------------------------------------------------------- schedules and faults
pub fn sched(r: &mut Rng) -> Sched {
    let mode = if r.p(25) { 1 } else { 0 };
    let starve = r.p(25);
    let from = r.n(400) as u64;
    Sched {
        seed: r.next(), mode,
        p_switch: *r.pick(&[0u32, 200, 1500, 6000, 20000, 50000]),
        w_env: *r.pick(&[2u32, 8, 16, 40, 120]),
        edge_gap: *r.pick(&[0u64, 0, 300, 3000, 20000, 100000]),
        pct_depth: r.r(1, 6) as i32, pct_len: *r.pick(&[200u64, 800, 3000]),
        starve_id: if starve { *r.pick(&[0i32, 1, 2, 3, 4, 64, 65]) } else { -1 },
        starve_from: from, starve_to: from + *r.pick(&[50u64, 300, 2000]),
        n_cpus: *r.pick(&[1i32, 1, 2, 2, 3, 4]),
        explicit: None,
    }
}
/// A calm schedule: run to completion, in order.
pub fn sched_calm(r: &mut Rng) -> Sched {
    Sched { seed: r.next(), p_switch: *r.pick(&[0u32, 0, 500]), w_env: 16, n_cpus: *r.pick(&[1i32, 2]), starve_id: -1, ..Default::default() }
}
pub const EINTR: i64 = 4;
pub const EIO: i64 = 5;
pub const EACCES: i64 = 13;
pub const ENOENT: i64 = 2;
pub const EMFILE: i64 = 24;
pub const ENOSPC: i64 = 28;
/// Faults every correct program must absorb: short reads and writes, interrupted calls, spurious wake-ups, stalls, clock jumps.
pub fn benign_faults(r: &mut Rng, v: &mut Vec<Fault>) {
    let kinds: Vec<usize> = (0..6).filter(|_| r.p(40)).collect();
    for k in kinds {
        for _ in 0..r.r(1, 12) {
            v.push(match k {
                0 => Fault { cls: 0, nth: r.n(60) as u32, kind: 1, arg: r.r(1, 40) as i64 },
                1 => Fault { cls: 0, nth: r.n(60) as u32, kind: 2, arg: EINTR },
                2 => if r.p(50) { Fault { cls: 1, nth: r.n(40) as u32, kind: 1, arg: r.r(1, 40) as i64 } } else { Fault { cls: 1, nth: r.n(40) as u32, kind: 2, arg: EINTR } },
                3 => if r.p(50) { Fault { cls: 3, nth: r.n(120) as u32, kind: 3, arg: 0 } } else { Fault { cls: 3, nth: r.n(120) as u32, kind: 2, arg: EINTR } },
                4 => Fault { cls: *r.pick(&[0, 1]), nth: r.n(40) as u32, kind: 5, arg: *r.pick(&[1_000_000i64, 50_000_000, 3_000_000_000]) },
                _ => Fault { cls: 12, nth: r.n(60) as u32, kind: 4, arg: *r.pick(&[1_000_000_000i64, 3600_000_000_000, -5_000_000_000, 200_000_000]) },
            });
        }
    }
}
pub fn fs_faults(r: &mut Rng, v: &mut Vec<Fault>) {
    for _ in 0..r.r(1, 6) {
        let cls = *r.pick(&[4, 4, 5, 6, 7, 7, 8, 8]);
        let e = *r.pick(&[ENOENT, EACCES, EIO, EMFILE, 40 /*ELOOP*/, 23 /*ENFILE*/, 36 /*ENAMETOOLONG*/, 20 /*ENOTDIR*/, 116 /*ESTALE*/]);
        if r.p(15) { v.push(Fault { cls, nth: r.n(8) as u32, kind: 5, arg: 2_000_000_000 }); } else { v.push(Fault { cls, nth: r.n(10) as u32, kind: 2, arg: e }); }
    }
    if r.p(30) { v.push(Fault { cls: 16, nth: 0, kind: 2, arg: *r.pick(&[ENOENT, EACCES]) }); }
    if r.p(20) { // every call of one class fails
        let cls = *r.pick(&[4, 5, 6, 7, 8]);
        let e = *r.pick(&[EACCES, EIO, EMFILE]);
        for n in 0..40 { v.push(Fault { cls, nth: n, kind: 2, arg: e }); }
    }
}

// ---------------------------------------------------------------- server workloads
pub fn caps(r: &mut Rng) -> Value {
    let mut c = json!({});
    let tri = |r: &mut Rng| match r.n(4) { 0 => Some(true), 1 => Some(true), 2 => Some(false), _ => None };
    if r.p(80) {
        let mut s = json!({});
        if let Some(b) = tri(r) { s["didSave"] = json!(b); }
        if let Some(b) = tri(r) { s["dynamicRegistration"] = json!(b); }
        if let Some(b) = tri(r) { s["willSave"] = json!(b); }
        c["textDocument"] = if r.p(85) { json!({"synchronization": s}) } else { json!({}) };
    }
    if r.p(40) { c["workspace"] = json!({"didChangeWatchedFiles": {"dynamicRegistration": r.p(50)}}); }
    match r.n(8) {
        0 => c["offsetEncoding"] = json!(["utf-8"]),
        1 => c["offsetEncoding"] = json!(["utf-16"]),
        2 => c["offsetEncoding"] = json!(["utf-16", "utf-8"]),
        3 => c["offsetEncoding"] = json!(["utf-32", "utf-8", "utf-16"]),
        4 => c["offsetEncoding"] = json!([]),
        _ => {}
    }
    c
}
const DOVE: &str = "[package]\nname = \"pkg\"\ndialect = \"pont\"\n";
pub fn project_fs(r: &mut Rng) -> (Vec<Node>, Option<String>, Option<Vec<String>>) {
    let mut fs = vec![];
    let d = |p: &str, fs: &mut Vec<Node>| fs.push(Node { path: p.into(), dir: true, data: String::new(), hex: false, dangling: false, link: false });
    let f = |p: &str, s: String, hex: bool, fs: &mut Vec<Node>| fs.push(Node { path: p.into(), dir: false, data: s, hex, dangling: false, link: false });
    let manifest = |r: &mut Rng| -> (String, bool) {
        match r.n(14) {
            0 => ("not toml at all [[[".into(), false),
            1 => (r.f(&["", " ", "\n\n", "#", "\u{feff}", "package = 1", "[package]", "[[package]]", "package = []", "[package", "=", "[a.b.c.d]", "\0"]).into(), false),
            2 => (r.f(&["fffe00ff", "ff", "5b7061636b6167655d0a6e616d65203d2022ff22", "efbbbf5b7061636b6167655d0a", "5b7061636b6167655d0a6e616d65203d2022c3"]).into(), true),
            3 => (format!("{}\n# {}", DOVE, "x".repeat(20000)), false),
            4 => (r.f(&["[package]\nname = 3\n", "[package]\ndialect = []\n", "[package]\naccount_address = 1\n", "[package]\ndove_version = {}\n", "[Package]\nname = \"a\"\n", "name = \"a\"\n"]).into(), false),
            5 => (format!("{}[dependencies]\nx = {{ git = \"u\", branch = \"b\" }}\n", DOVE), false),
            6..=9 => {
                let mut m: String = r.f(&["[package]\n", "[package]\n", "[package]\r\n", "\u{feff}[package]\n", "package = {}\n#"]).into();
                for k in ["name", "account_address", "dove_version", "dialect", "version", "authors", "blockchain_api", "dependencies"] {
                    if r.p(55) {
                        let v = r.f(&["\"\"", "\"0x1\"", "\"1exaf9mcy\"", "\"\u{43c}\u{438}\u{440}\"", "\"pont\"", "\"diem\"", "\"move\"", "\"0.11.0\"", "\">=1\"", "\"^1.x\"", "\"1.2.3.4.5\"", "\"../..\"", "\"/\"", "\"a b\"", "'''x'''", "\"\\u0000\"", "\"0x\"", "\"0xg\"", "\"0x123456789012345678901234567890123456789012345678901234567890123456789\"", "[]", "1979-05-27T07:32:00Z", "nan", "true", "{}"]);
                        m.push_str(&format!("{} = {}\n", k, v));
                    }
                }
                for t in ["[dependencies]\n", "[layout]\nmodule_dir = \"..\"\n", "[[dependencies]]\npath = \".\"\n", "[boost_path]\n", "[package]\n"] { if r.p(12) { m.push_str(t); } }
                (m, false)
            }
            _ => (DOVE.into(), false),
        }
    };
    d("/simfs/w", &mut fs);
    for i in 0..r.r(0, 3) {
        let p = format!("/simfs/w/p{}", i);
        d(&p, &mut fs);
        if r.p(80) { let (m, h) = manifest(r); f(&format!("{}/Dove.toml", p), m, h, &mut fs); }
        if r.p(20) { d(&format!("{}/Dove.toml", if r.p(50) { p.clone() } else { "/simfs/w/z".into() }), &mut fs); }
        d(&format!("{}/src", p), &mut fs);
        f(&format!("{}/src/a.move", p), "module 0x1::A {}\n".into(), false, &mut fs);
    }
    if r.p(40) { let (m, h) = manifest(r); f("/simfs/w/Dove.toml", m, h, &mut fs); }
    if r.p(12) { f("/simfs/w/bad\u{f7ff}\u{f7fe}name", "x".into(), false, &mut fs); d("/simfs/w/dir\u{f7e9}", &mut fs); f("/simfs/w/dir\u{f7e9}/Dove.toml", DOVE.into(), false, &mut fs); }
    if r.p(10) { fs.push(Node { path: "/simfs/w/gone".into(), dir: false, data: String::new(), hex: false, dangling: true, link: false }); fs.push(Node { path: "/simfs/w/Dove.toml".into(), dir: false, data: String::new(), hex: false, dangling: true, link: false }); }
    if r.p(3) { for i in 0..300 { let p = format!("/simfs/w/many{}", i); d(&p, &mut fs); if r.p(50) { f(&format!("{}/Dove.toml", p), DOVE.into(), false, &mut fs); } } }
    if r.p(2) { d("/simfs/w/huge", &mut fs); f("/simfs/w/huge/Dove.toml", format!("{}# {}\n", DOVE, "x".repeat(400_000)), false, &mut fs); }
    for i in 0..r.n(4) { f(&format!("/simfs/w/f{}.txt", i), "x".into(), false, &mut fs); }
    let root = match r.n(14) { 8 => Some("file:///simfs/w/".to_string()), 9 => Some("file:///simfs/w/dir%E9".to_string()), 10 => Some("file:///simfs/w/f0.txt".to_string()), 12 => Some("file:///simfs/w/p0/Dove.toml".to_string()), 0 => None, 1 => Some("file:///simfs/missing".to_string()), 2 => Some("untitled:x".to_string()), 3 => Some("file:///simfs/w/p0/src".to_string()), _ => Some("file:///simfs/w".to_string()) };
    let folders = match r.n(9) { 6 => Some((0..30).map(|i| format!("file:///simfs/w/many{}", i)).collect()), 7 => Some(vec!["file:///simfs/w".into(), "file:///simfs/w/".into(), "file:///simfs/w/dir%E9".into(), "untitled:".into()]), 0 => Some(vec![]), 1 => Some(vec!["file:///simfs/w/p0".into(), "file:///simfs/w/p1".into()]), 2 => Some(vec!["file:///simfs/w".into(), "file:///simfs/missing".into(), "http://x/y".into()]), _ => None };
    (fs, root, folders)
}
pub fn base(r: &mut Rng, ndocs: usize) -> ServerCase {
    let long = format!("/simfs/w/{}deep.move", "d/".repeat(60));
    let names = [
        "/simfs/w/a.move", "/simfs/w/b.move", "/simfs/w/sub/a.move", "/simfs/w/with space.move", "/simfs/w/\u{43c}\u{438}\u{440}.move", "/simfs/w/A.move", "/simfs/w/a.move.bak", "/simfs/w/a%25b.move", "/other/c.move", "/a.move",
        "/simfs/w/p0/src/a.move", "/simfs/w/p0/target/a.move", "/simfs/w/p0/build/a.move", "/simfs/w/p0/artifacts/.external/a.move", "/simfs/w/.hidden/a.move", "/simfs/w/node_modules/a.move", "/simfs/w/p1/tests/a.move", "/simfs/w/p0/Dove.toml", "/simfs/w/a", "/simfs/w/caf\u{e9}.move", "/simfs/w/cafe\u{301}.move", "/simfs/w/a#b?.move", "/simfs/w/a.MOVE", "/home/u/.dove/pkg/0x1/M.move", "/simfs/w/a+b;c,d.move", &long,
    ];
    let mut idx: Vec<usize> = (0..names.len()).collect();
    for i in (1..idx.len()).rev() { let j = r.n(i + 1); idx.swap(i, j); }
    if r.p(40) { idx.sort_by_key(|i| *i > 9); }
    let docs = (0..ndocs).map(|k| match idx.get(k) { Some(i) => format!("file://{}", enc(names[*i])), None => format!("file:///simfs/w/wide/m{}.move", k) }).collect();
    let (fs, root, folders) = project_fs(r);
    ServerCase {
        caps: caps(r), root, folders, docs, fs,
        stdin_cap: *r.pick(&[65536u32, 65536, 4096, 512, 64, 7]),
        stdout_cap: *r.pick(&[65536u32, 65536, 4096, 512, 128]),
        send_chunks: match r.n(5) { 0 => vec![1 + r.n(30) as u32, 1 + r.n(300) as u32], 1 => vec![r.r(20, 200) as u32], _ => vec![] },
        recv_chunk: *r.pick(&[0u32, 0, 0, 4096, 300]),
        env: match r.n(6) { 0 => vec![("MOVE_LS_LOG".into(), "info".into())], 1 => vec![("MOVE_LS_LOG".into(), "trace".into())], _ => vec![] },
        auto_reply: true,
        init: init_extra(r),
        lang: if r.p(8) { r.f(&["Move", "plaintext", "", "rust"]) } else { "move".into() },
        content_type: if r.p(10) { r.f(&["application/vscode-jsonrpc; charset=utf-8", "application/vscode-jsonrpc; charset=utf8"]) } else { String::new() },
        ops: vec![],
    }
}
/// What else clients put into their initialize request.
fn init_extra(r: &mut Rng) -> Value {
    let mut x = json!({});
    if r.p(40) { x["clientInfo"] = match r.n(3) { 0 => json!({"name": "sim"}), 1 => json!({"name": "", "version": ""}), _ => json!({"name": "Visual Studio Code \u{e9}", "version": "1.61.0"}) }; }
    if r.p(30) { x["trace"] = json!(r.f(&["off", "messages", "verbose"])); }
    if r.p(30) { x["initializationOptions"] = match r.n(4) { 0 => Value::Null, 1 => json!({"modules_folders": ["/simfs/w/p0/src"], "stdlib_folder": null, "dialect": "pont", "sender_address": "0x1"}), 2 => json!([]), _ => json!("x") }; }
    if r.p(20) { x["processId"] = json!(r.n(40000)); }
    if r.p(20) { x["rootPath"] = match r.n(3) { 0 => Value::Null, 1 => json!("/simfs/w"), _ => json!("") }; }
    if r.p(15) { x["locale"] = json!("de"); }
    if r.p(10) { x["workDoneToken"] = if r.p(50) { json!(7) } else { json!("tok") }; }
    x
}
pub fn enc(p: &str) -> String {
    let mut s = String::new();
    for b in p.bytes() { if b.is_ascii_alphanumeric() || b"/._-~%".contains(&b) { s.push(b as char) } else { s.push_str(&format!("%{:02X}", b)) } }
    s
}
pub fn hello(r: &mut Rng, c: &mut ServerCase) {
    c.ops.push(Op::Init { id: ident(r, 1) });
    c.ops.push(Op::WaitResp);
    c.ops.push(Op::Initialized);
}
pub fn ident(r: &mut Rng, k: usize) -> Value {
    match r.n(40) {
        0..=8 => json!(format!("id-{}", k)),
        9 => json!(-(k as i64)),
        10 => json!(i32::MAX as i64 - k as i64),
        11 => json!(i32::MIN as i64 + k as i64),
        12 => json!(format!("{}", k)),
        13 => json!(format!("\u{e9}\u{1f600}\"\\ {}", k)),
        14 => json!(format!("{}{}", "x".repeat(300), k)),
        15 => json!(k as i64 * 65536),
        _ => json!(k as i64),
    }
}

pub struct Hist { pub text: Vec<Option<String>>, pub version: Vec<i32>, pub crlf: Vec<bool> }
impl Hist { pub fn new(n: usize) -> Hist { Hist { text: vec![None; n], version: vec![0; n], crlf: vec![false; n] } } }
/// Version a document is opened with.
fn first_version(r: &mut Rng) -> i32 { *r.pick(&[1, 1, 1, 1, 1, 1, 0, 0, -7, 250, 65530, 1_000_000, i32::MAX - 100_000]) }
fn bump(r: &mut Rng) -> i32 { if r.p(4) { *r.pick(&[10, 256, 1000]) } else { r.r(1, 3) as i32 } }
#[derive(Clone)]
pub struct WL { pub ops: usize, pub docs: usize, pub size: usize, pub errs: usize, pub ranged: usize, pub past: bool, pub wild: usize, pub crlf: usize, pub close: usize, pub pace: usize, pub reqs: usize, pub save: usize, pub hostile: usize, pub edits: usize, pub cap: usize }

/// One step of correct document traffic on document `d`.
pub fn doc_step(r: &mut Rng, w: &WL, h: &mut Hist, d: usize, ops: &mut Vec<Op>) {
    match h.text[d].clone() {
        None => {
            h.crlf[d] = r.p(w.crlf);
            let t = if r.p(5) { String::new() } else if w.cap > 30_000 && r.p(60) { big_text(r, h.crlf[d]) } else { text(r, w.size, w.errs, h.crlf[d]) };
            let t = if r.p(w.wild) { mutate(r, &t) } else { t };
            h.version[d] = if h.version[d] != 0 && r.p(60) { h.version[d] + 1 } else { first_version(r) };
            ops.push(Op::Open { doc: d, version: h.version[d], text: t.clone() });
            h.text[d] = Some(t);
        }
        Some(t) => {
            if r.p(w.close) { ops.push(Op::Close { doc: d }); h.text[d] = None; return; }
            if r.p(w.save) { ops.push(Op::Save { doc: d }); }
            if r.p(w.hostile) || lone_cr(&t) {
                h.version[d] += bump(r);
                let n = if r.p(w.hostile.max(30)) { hostile(r, &t) } else { text(r, w.size, w.errs, h.crlf[d]) };
                ops.push(Op::Change { doc: d, version: h.version[d], edits: vec![Edit { range: None, text: n.clone() }] });
                h.text[d] = Some(n);
                return;
            }
            let mixed = w.crlf > 0 && r.p(if t.len() > 1500 { 60 } else { 12 });
            let c = EditCfg { ranged: w.ranged, past: w.past, crlf: h.crlf[d] ^ mixed, wild: w.wild, size: w.size, errs: w.errs };
            let mut cur = t;
            let mut es = vec![];
            for _ in 0..(if r.p(70) && w.edits <= 4 { 1 } else { r.r(0, w.edits) }) {
                let e = edit(r, &cur, &c);
                if let Some(n) = apply_edits(&cur, std::slice::from_ref(&e)) { if lone_cr(&n) { continue; } cur = n; es.push(e); }
            }
            if cur.len() > w.cap { let n = text(r, w.size, w.errs, h.crlf[d]); es.push(Edit { range: None, text: n.clone() }); cur = n; }
            h.version[d] += bump(r);
            ops.push(Op::Change { doc: d, version: h.version[d], edits: es });
            h.text[d] = Some(cur);
        }
    }
}
pub fn lone_cr(t: &str) -> bool { t.replace("\r\n", "").contains('\r') }
pub fn pace(r: &mut Rng, p: usize, ops: &mut Vec<Op>) {
    if r.p(p) { ops.push(match r.n(6) { 0 | 1 => Op::WaitIdle, 2 | 3 => Op::WaitPub { n: 1 }, 4 => Op::WaitResp, _ => Op::Think { ns: *r.pick(&[1_000_000u64, 200_000_000, 5_000_000_000]) } }); }
}
const METHODS: [&str; 8] = ["textDocument/hover", "textDocument/definition", "workspace/symbol", "textDocument/completion", "rust-analyzer/syntaxTree", "foo/bar", "$/internal", "initialize2"];
pub fn traffic(r: &mut Rng, w: &WL, h: &mut Hist, ops: &mut Vec<Op>, k: &mut usize) {
    for _ in 0..w.ops {
        if r.p(w.reqs) {
            *k += 1;
            let id = ident(r, *k);
            ops.push(Op::Req { id: id.clone(), method: r.f(&METHODS), params: match r.n(3) { 0 => Value::Null, 1 => json!({}), _ => json!([1, "x"]) } });
            match r.n(20) {
                0..=4 => ops.push(Op::Cancel { id }),
                5 => { let at = ops.len() - 1; ops.insert(at, Op::Cancel { id }); }
                6 => { let other = match &id { Value::String(_) => json!(*k as i64), _ => json!(id.to_string()) }; ops.push(Op::Cancel { id: other }); }
                7 => { ops.push(Op::Cancel { id: id.clone() }); ops.push(Op::Cancel { id }); }
                _ => {}
            }
        } else { let d = r.n(w.docs); doc_step(r, w, h, d, ops); }
        pace(r, w.pace, ops);
    }
}
