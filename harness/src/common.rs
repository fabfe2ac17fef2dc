//! Shared generators and small reference helpers.
use crate::engine::G;
use unicode_segmentation::UnicodeSegmentation;

pub fn graphemes(s: &str) -> Vec<&str> {
    s.graphemes(true).collect()
}

/// Cells a grapheme takes, per the unicode-display-width crate (the width table the project uses).
pub fn gw(s: &str) -> usize {
    unicode_display_width::width(s) as usize
}

pub fn width(s: &str) -> usize {
    graphemes(s).iter().map(|g| gw(g)).sum()
}

pub const NARROW: &[&str] = &["a", "b", "c", "x", "Z", "0", "7", "-", "_", ".", "é", "ß", "Ω", "ж", "│", "▁"];
pub const WIDE: &[&str] = &["世", "界", "漢", "字", "한", "あ", "🎉", "👍", "👨‍👩‍👧", "🇧🇷", "Ａ"];
pub const COMBINING: &[&str] = &["e\u{301}", "o\u{308}\u{323}", "a\u{20d7}", "n\u{303}"];
pub const MARKUPPY: &[&str] = &["[", "]", "\\", "/", "@", "=", "#", "'", "\""];

/// One printable grapheme cluster, never a space.
pub fn grapheme(g: &mut G) -> &'static str {
    match g.weighted(&[10, 4, 2]) {
        0 => g.pick(NARROW),
        1 => g.pick(WIDE),
        _ => g.pick(COMBINING),
    }
}

pub fn word(g: &mut G, max: usize) -> String {
    let n = g.usize(1, max);
    (0..n).map(|_| grapheme(g)).collect()
}

/// Words and single or multiple spaces; no newline.
pub fn line(g: &mut G, max_words: usize, max_word: usize) -> String {
    let n = g.usize(0, max_words);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            let k = if g.chance(1, 5) { g.usize(2, 4) } else { 1 };
            s.push_str(&" ".repeat(k));
        }
        s.push_str(&word(g, max_word));
    }
    s
}

pub fn ident(g: &mut G) -> String {
    const A: &[&str] = &["a", "b", "c", "d", "x", "y", "main", "side", "bar", "item", "k9", "foo-bar", "q_1"];
    g.pick(A).to_string()
}

/// A hostile string: arbitrary characters biased to a structural alphabet.
pub fn hostile(g: &mut G, alphabet: &[&str], max: usize) -> String {
    let n = g.usize(0, max);
    let mut s = String::new();
    for _ in 0..n {
        match g.weighted(&[12, 2, 1, 1]) {
            0 => s.push_str(g.pick(alphabet)),
            1 => s.push_str(grapheme(g)),
            2 => s.push(char::from_u32(g.below(0x250) as u32).unwrap_or('?')),
            _ => s.push(char::from_u32(g.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
        }
    }
    s
}

pub fn rand_case(g: &mut G, s: &str) -> String {
    match g.weighted(&[4, 1, 1]) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
