//! C09: wrapping, folding, clipping and ellipsis of content. C10: strip algebra against a cell model.
use crate::common::*;
use crate::engine::{G, Part, Property, R};
use crate::{ensure, ensure_eq, fail};
use std::collections::{BTreeMap, HashMap};
use tcss::types::text::AlignHorizontal;
use tcss::types::{RgbaColor, TextOverflow, TextWrap};
use textual::content::{Content, WrappedLine};
use textual::segment::{Segment, Style};
use textual::strip::Strip;

/// One grapheme with everything it is drawn with.
#[derive(Clone, Debug, PartialEq)]
pub struct Ch {
    pub g: String,
    pub w: usize,
    pub style: Style,
    pub meta: BTreeMap<String, String>,
}

pub fn chs(s: &Strip) -> Vec<Ch> {
    let mut v = vec![];
    for seg in s.segments() {
        for g in graphemes(seg.text()) {
            v.push(Ch { g: g.to_string(), w: gw(g), style: seg.style().cloned().unwrap_or_default(), meta: seg.meta().iter().map(|(k, v)| (k.clone(), v.clone())).collect() });
        }
    }
    v
}

fn wsum(c: &[Ch]) -> usize {
    c.iter().map(|c| c.w).sum()
}

fn is_space(c: &Ch) -> bool {
    c.g.chars().all(char::is_whitespace)
}

fn show(c: &[Ch]) -> String {
    c.iter().map(|c| c.g.as_str()).collect()
}

/// The cells [from, to) of a line; halves of wide characters become spaces.
fn model_crop(c: &[Ch], from: usize, to: usize) -> Vec<Ch> {
    let mut out = vec![];
    let mut p = 0;
    for x in c {
        let n = p + x.w;
        if p >= from && n <= to {
            out.push(x.clone());
        } else {
            for q in p.max(from)..n.min(to) {
                let _ = q;
                out.push(Ch { g: " ".into(), w: 1, ..x.clone() });
            }
        }
        p = n;
    }
    out
}

fn gen_style(g: &mut G) -> Style {
    let col = |g: &mut G| if g.bool() { Some(RgbaColor::rgb(g.u8(), g.u8(), g.u8())) } else { None };
    Style { fg: col(g), bg: col(g), bold: g.chance(1, 4), dim: g.chance(1, 6), italic: g.chance(1, 6), underline: g.chance(1, 6), strike: g.chance(1, 8), reverse: g.chance(1, 8) }
}

/// A source line: words, runs of spaces, possibly leading and trailing ones, possibly nothing but spaces.
fn gen_line(g: &mut G, long: usize) -> String {
    match g.weighted(&[1, 1, 12]) {
        0 => String::new(),
        1 => " ".repeat(g.usize(1, 5)),
        _ => {
            let mut s = if g.chance(1, 5) { " ".repeat(g.usize(1, 4)) } else { String::new() };
            let n = g.usize(1, 7);
            for i in 0..n {
                if i > 0 {
                    let k = if g.chance(1, 4) { g.usize(2, 4) } else { 1 };
                    s.push_str(&" ".repeat(k));
                }
                let m = if g.chance(1, 5) { long } else { 5 };
                s.push_str(&word(g, m));
            }
            if g.chance(1, 6) {
                s.push_str(&" ".repeat(g.usize(1, 3)));
            }
            s
        }
    }
}

/// Wraps random pieces of the text in (properly nested) tags.
fn add_markup(g: &mut G, lines: &[String]) -> String {
    let mut out = String::new();
    let mut open = 0;
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            out.push('\n');
        }
        for gr in graphemes(l) {
            if g.chance(1, 6) && open < 3 {
                out.push_str(g.pick(&["[bold]", "[red]", "[on blue]", "[italic green]", "[@click=app.bell]", "[underline]"]));
                open += 1;
            }
            out.push_str(gr);
            if open > 0 && g.chance(1, 5) {
                out.push_str("[/]");
                open -= 1;
            }
        }
    }
    for _ in 0..open {
        out.push_str("[/]");
    }
    out
}

struct Text {
    content: Content,
    lines: Vec<String>,
    marked: bool,
}

fn gen_text(g: &mut G, long: usize) -> Result<Text, crate::engine::Fail> {
    let lines: Vec<String> = g.vec(1, 4, |g| gen_line(g, long));
    let marked = g.chance(3, 5);
    let content = if marked {
        let m = add_markup(g, &lines);
        g.note(|| format!("markup {m:?}"));
        match Content::from_markup(&m) {
            Ok(c) => c,
            Err(e) => fail!("well-formed markup {m:?} refused: {e:?}"),
        }
    } else {
        g.note(|| format!("text {:?}", lines.join("\n")));
        Content::new(lines.join("\n"))
    };
    let content = if g.bool() { content.with_style(gen_style(g)) } else { content };
    g.label(if marked { "markup" } else { "plain" });
    Ok(Text { content, lines, marked })
}

/// Output lines grouped by the source line they came from.
fn group(out: &[WrappedLine], n: usize) -> Result<Vec<Vec<Vec<Ch>>>, crate::engine::Fail> {
    let mut groups = vec![];
    let mut cur = vec![];
    for l in out {
        let c = chs(&l.strip);
        ensure_eq!(l.strip.cell_length(), wsum(&c), "a line's cell_length disagrees with its text {:?}", show(&c));
        cur.push(c);
        if l.line_end {
            groups.push(std::mem::take(&mut cur));
        }
    }
    ensure!(cur.is_empty(), "the last output line is not marked as the end of its source line");
    ensure_eq!(groups.len(), n, "number of line ends differs from the number of source lines");
    Ok(groups)
}

/// Words of a line as [start, end) indices.
fn words(c: &[Ch]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        if is_space(&c[i]) {
            i += 1;
            continue;
        }
        let s = i;
        while i < c.len() && !is_space(&c[i]) {
            i += 1;
        }
        v.push((s, i));
    }
    v
}

fn wrap(g: &mut G) -> R {
    let t = gen_text(g, 16)?;
    let width = match g.weighted(&[10, 2, 1]) {
        0 => g.usize(2, 14),
        1 => g.usize(1, 40),
        _ => 1,
    };
    let src = t.content.lines();
    let out = t.content.wrap_with_line_end(width);
    g.note(|| format!("width {width}\nout {:?}", out.iter().map(|l| (l.strip.text(), l.line_end)).collect::<Vec<_>>()));
    ensure_eq!(src.len(), t.lines.len(), "lines() count");
    let groups = group(&out, src.len())?;
    let mut wrapped = false;
    for (i, (s, out)) in src.iter().zip(&groups).enumerate() {
        let s = chs(s);
        ensure_eq!(show(&s), t.lines[i], "lines() text of line {i}");
        let sw = words(&s);
        let want: Vec<Ch> = s.iter().filter(|c| !is_space(c)).cloned().collect();
        let got: Vec<Ch> = out.iter().flatten().filter(|c| !is_space(c)).cloned().collect();
        if show(&want) != show(&got) {
            fail!("wrapping to {width} lost, repeated or reordered text of line {i}\n   got: {:?}\n  want: {:?}", show(&got), show(&want));
        }
        ensure_eq!(got, want, "wrapping to {width} changed the style of some character of line {i}");
        if out.len() > 1 {
            wrapped = true;
        }
        if wsum(&s) <= width {
            ensure_eq!(out, &vec![s.clone()], "line {i} fits in {width} cells but was changed");
        }
        // Each output line is a piece of the source line; between the pieces only whitespace is missing.
        let mut p = 0;
        for l in out {
            let at = (p..=s.len()).take_while(|&k| k == p || is_space(&s[k - 1])).find(|&k| s[k..].starts_with(l));
            match at {
                Some(k) => p = k + l.len(),
                None => fail!("wrapping to {width}: {:?} is not the next piece of {:?}", show(l), show(&s)),
            }
        }
        ensure!(s[p..].iter().all(is_space), "wrapping to {width} lost the end of {:?}", show(&s));
        // Walk output words against source words: whole words stay whole, breaks happen only when needed.
        let mut k = 0; // source word
        let mut off = 0; // graphemes of it already seen
        for (li, l) in out.iter().enumerate() {
            let lw = wsum(l);
            ensure!(lw <= width || l.len() == 1, "line {:?} is {lw} cells wide, limit {width}", show(l));
            let ws = words(l);
            ensure!(!ws.is_empty() || sw.is_empty(), "blank line inside the wrapping of {:?}", show(&s));
            for (wi, (a, b)) in ws.iter().enumerate() {
                let n = b - a;
                let (sa, sb) = sw[k];
                let total = sb - sa;
                ensure!(off + n <= total, "words of {:?} were glued together in {:?}", show(&s), show(l));
                off += n;
                if off < total {
                    ensure!(wsum(&s[sa..sb]) > width, "word {:?} fits in {width} cells but was broken", show(&s[sa..sb]));
                    ensure!(wi + 1 == ws.len(), "a space was put into word {:?}", show(&s[sa..sb]));
                    let next = s[sa + off].w;
                    ensure!(lw + next > width, "word {:?} broken although more of it fits on {:?}", show(&s[sa..sb]), show(l));
                } else {
                    k += 1;
                    off = 0;
                }
            }
            // break between words: the next word must not have fitted
            if off == 0 && li + 1 < out.len() && k < sw.len() && k > 0 {
                let (pa, pb) = sw[k - 1];
                if wsum(&s[pa..pb]) <= width {
                    let next = wsum(&s[pb..sw[k].1]);
                    ensure!(lw + next > width, "line {:?} ended although {:?} fits in {width}", show(l), show(&s[sw[k].0..sw[k].1]));
                }
            }
        }
        ensure_eq!(k, sw.len(), "words left over in line {i}");
        g.label_if(sw.iter().any(|w| wsum(&s[w.0..w.1]) > width), "overlong word");
        g.label_if(sw.is_empty() && !s.is_empty(), "whitespace-only line");
    }
    g.label_if(wrapped, "wrapped");
    g.label_if(width == 1, "width 1");
    g.key(&(t.content.text().to_string(), width, t.marked));
    g.nontrivial_if(wrapped);
    Ok(())
}

fn nowrap(g: &mut G) -> R {
    let t = gen_text(g, 16)?;
    let width = if g.chance(4, 5) { g.usize(1, 16) } else { g.usize(0, 40) };
    let src = t.content.lines();
    ensure_eq!(t.content.height(), t.lines.len(), "height()");
    ensure_eq!(t.content.cell_length(), t.lines.iter().map(|l| crate::common::width(l)).max().unwrap_or(0), "cell_length()");
    let mode = g.below(3);
    g.note(|| format!("width {width} mode {mode}"));
    let (ov, name) = match mode {
        0 => (TextOverflow::Fold, "fold"),
        1 => (TextOverflow::Clip, "clip"),
        _ => (TextOverflow::Ellipsis, "ellipsis"),
    };
    g.label(name);
    let out = t.content.wrap_with_line_end_overflow(width, ov, TextWrap::NoWrap);
    if width == 0 {
        ensure!(out.len() == 1 && out[0].strip.cell_length() == 0, "width 0 must give one empty line");
        return Ok(());
    }
    let groups = group(&out, src.len())?;
    let mut cut = false;
    for (i, (s, out)) in src.iter().zip(&groups).enumerate() {
        let s = chs(s);
        let over = wsum(&s) > width;
        cut |= over;
        match mode {
            0 => {
                let got: Vec<Ch> = out.iter().flatten().cloned().collect();
                ensure_eq!(got, s, "folding line {i} {:?} to {width} changed it", show(&s));
                for (a, b) in out.iter().zip(out.iter().skip(1).map(Some).chain([None])) {
                    ensure!(wsum(a) <= width || a.len() == 1, "folded line {:?} wider than {width}", show(a));
                    if let Some(b) = b {
                        ensure!(!b.is_empty() && wsum(a) + b[0].w > width, "line {:?} folded early", show(a));
                    }
                }
            }
            1 => {
                ensure_eq!(out.len(), 1, "clipping must keep one line per line");
                ensure_eq!(out[0], model_crop(&s, 0, width), "clipping line {i} {:?} to {width}", show(&s));
            }
            _ => {
                ensure_eq!(out.len(), 1, "ellipsis must keep one line per line");
                let o = &out[0];
                if !over {
                    ensure_eq!(*o, s, "a line that fits was changed");
                } else {
                    ensure_eq!(wsum(o), width, "ellipsised line {:?} of {:?} has the wrong width", show(o), show(&s));
                    ensure!(o.last().is_some_and(|c| c.g == "…"), "no ellipsis at the end of {:?}", show(o));
                    ensure_eq!(o[..o.len() - 1].to_vec(), model_crop(&s, 0, width - 1), "text before the ellipsis");
                }
            }
        }
    }
    g.key(&(t.content.text().to_string(), width, mode));
    g.nontrivial_if(cut);
    Ok(())
}

pub static P09: Property = Property {
    id: "C09",
    rule: "wrap: at least one source line was split over several lines; nowrap: at least one line exceeds the width",
    assumptions: &["cell widths are those of the unicode-display-width table the project uses", "a line holding one grapheme wider than the limit is allowed when the width is 1"],
    parts: &[
        Part { name: "word wrap", quick: 900_000, thorough: 12_000_000, f: wrap },
        Part { name: "fold, clip, ellipsis", quick: 600_000, thorough: 8_000_000, f: nowrap },
    ],
};

// ---------------------------------------------------------------- C10

fn gen_segment(g: &mut G) -> Segment {
    let n = g.usize(0, 6);
    let t: String = (0..n).map(|_| if g.chance(1, 4) { " " } else { grapheme(g) }).collect();
    let s = if g.chance(2, 3) { Segment::styled(t, gen_style(g)) } else { Segment::new(t) };
    if g.chance(1, 4) {
        let k = g.pick(&["@click", "@link"]).to_string();
        let v = g.pick(&["a", "b"]).to_string();
        s.with_meta(HashMap::from([(k, v)]))
    } else {
        s
    }
}

fn check(op: &str, s: &Strip, m: &[Ch]) -> R {
    let c = chs(s);
    if show(&c) != show(m) {
        fail!("{op}: text\n   got: {:?}\n  want: {:?}", show(&c), show(m));
    }
    ensure_eq!(c, m.to_vec(), "{op}: style or metadata of a cell");
    ensure_eq!(s.cell_length(), wsum(m), "{op}: cell_length() of {:?}", show(m));
    ensure_eq!(s.text(), show(m), "{op}: text()");
    for seg in s.segments() {
        ensure_eq!(seg.cell_length(), crate::common::width(seg.text()), "{op}: cached length of segment {:?}", seg.text());
    }
    Ok(())
}

fn blanks(n: usize, st: &Option<Style>) -> Vec<Ch> {
    vec![Ch { g: " ".into(), w: 1, style: st.clone().unwrap_or_default(), meta: BTreeMap::new() }; n]
}

fn opt_style(g: &mut G) -> Option<Style> {
    if g.bool() { Some(gen_style(g)) } else { None }
}

fn strips(g: &mut G) -> R {
    let segs = g.vec(0, 4, gen_segment);
    let mut s = match g.below(3) {
        0 => Strip::from_segments(segs.clone()),
        1 => Strip::from_iter(segs.clone()),
        _ => Strip::join(segs.iter().cloned().map(Strip::from_segment)),
    };
    let mut m: Vec<Ch> = segs.iter().flat_map(|x| chs(&Strip::from_segment(x.clone()))).collect();
    g.note(|| format!("segments {:?}", segs.iter().map(|s| (s.text(), s.style().is_some(), s.meta().len())).collect::<Vec<_>>()));
    check("construction", &s, &m)?;
    let nops = g.usize(1, 6);
    let mut names = vec![];
    let start = show(&m);
    for _ in 0..nops {
        let len = wsum(&m);
        let op = g.below(11);
        let name: String;
        match op {
            0 => {
                let a = g.usize(0, len + 1);
                let b = g.usize(0, len + 3);
                name = format!("crop({a},{b})");
                s = s.crop(a, b);
                m = if a < b { model_crop(&m, a, b) } else { vec![] };
            }
            1 => {
                let mut cuts = g.vec(0, 4, |g| g.usize(0, len + 1));
                cuts.sort();
                name = format!("divide({cuts:?})");
                let parts = s.divide(&cuts);
                let mut p = 0;
                let mut all = vec![];
                let bounds: Vec<usize> = {
                    let mut b = vec![];
                    let mut last = 0;
                    for &c in &cuts {
                        if c > last && c <= len {
                            b.push(c);
                            last = c;
                        }
                    }
                    if last < len {
                        b.push(len);
                    }
                    b
                };
                if !(cuts.is_empty() && len == 0) {
                    ensure_eq!(parts.len(), bounds.len(), "{name} of {:?}: number of parts", show(&m));
                }
                for (part, e) in parts.iter().zip(&bounds) {
                    let mm = model_crop(&m, p, *e);
                    check(&format!("{name} part {p}..{e}"), part, &mm)?;
                    all.extend(mm);
                    p = *e;
                }
                if !parts.is_empty() {
                    s = Strip::join(parts);
                    m = all;
                }
            }
            2 => {
                let n = g.usize(0, 12);
                let st = opt_style(g);
                name = format!("adjust_cell_length({n})");
                s = s.adjust_cell_length(n, st.clone());
                m = if n <= len { model_crop(&m, 0, n) } else { [m, blanks(n - len, &st)].concat() };
                ensure_eq!(s.cell_length(), n, "{name}: exact width");
            }
            3 => {
                let n = g.usize(0, 14);
                let st = opt_style(g);
                let k = g.below(3);
                name = format!("text_align({k},{n})");
                let (al, l) = match k {
                    0 => (AlignHorizontal::Left, 0),
                    1 => (AlignHorizontal::Right, n.saturating_sub(len)),
                    _ => (AlignHorizontal::Center, n.saturating_sub(len) / 2),
                };
                s = s.text_align(al, n, st.clone());
                m = if len >= n { model_crop(&m, 0, n) } else { [blanks(l, &st), m, blanks(n - len - l, &st)].concat() };
                ensure_eq!(s.cell_length(), n, "{name}: exact width");
            }
            4 => {
                let st = gen_style(g);
                name = "apply_style".into();
                s = s.apply_style(&st);
                for c in &mut m {
                    c.style = Style {
                        fg: st.fg.clone().or(c.style.fg.clone()),
                        bg: st.bg.clone().or(c.style.bg.clone()),
                        bold: st.bold | c.style.bold,
                        dim: st.dim | c.style.dim,
                        italic: st.italic | c.style.italic,
                        underline: st.underline | c.style.underline,
                        strike: st.strike | c.style.strike,
                        reverse: st.reverse | c.style.reverse,
                    };
                }
            }
            5 => {
                name = "simplify".into();
                let before = s.segments().len();
                let solid = s.segments().iter().all(|x| !x.is_empty());
                s = s.simplify();
                ensure!(s.segments().len() <= before, "simplify added segments");
                for w in s.segments().windows(2).filter(|_| solid) {
                    ensure!(w[0].style() != w[1].style() || w[0].meta() != w[1].meta(), "simplify left equal neighbours {:?} {:?}", w[0].text(), w[1].text());
                }
            }
            6 => {
                let other = g.vec(0, 2, gen_segment);
                name = "join".into();
                let o = Strip::from_segments(other);
                m.extend(chs(&o));
                s = Strip::join([s, o]);
            }
            7 => {
                let n = g.usize(0, 20);
                let st = opt_style(g);
                name = format!("justify({n})");
                let j = s.justify(n, st.clone());
                let gaps = m.iter().filter(|c| c.g == " ").count();
                if len >= n {
                    m = model_crop(&m, 0, n);
                } else if gaps == 0 {
                    m = [m, blanks(n - len, &st)].concat();
                } else {
                    // every space grows by an even share; nothing else changes
                    let c = chs(&j);
                    ensure_eq!(wsum(&c), n, "{name} of {:?}: exact width", show(&m));
                    let mut it = c.into_iter().peekable();
                    let mut shares = vec![];
                    let mut out = vec![];
                    let mut i = 0;
                    while i < m.len() {
                        let x = &m[i];
                        if x.g != " " {
                            ensure_eq!(it.next(), Some(x.clone()), "{name}: a non-space changed");
                            out.push(x.clone());
                            i += 1;
                        } else {
                            let mut run = 0;
                            while i < m.len() && m[i].g == " " {
                                run += 1;
                                i += 1;
                            }
                            let mut k = 0;
                            while it.peek().is_some_and(|c| c.g == " ") {
                                out.push(it.next().unwrap());
                                k += 1;
                            }
                            ensure!(k >= run, "{name} removed a space from {:?}", show(&m));
                            shares.push((k - run, run));
                        }
                    }
                    ensure!(it.next().is_none(), "{name}: text after the end");
                    let extra = n - len;
                    let (lo, hi) = (extra / gaps, extra.div_ceil(gaps));
                    for (k, run) in shares {
                        ensure!(k >= lo * run && k <= hi * run, "{name} of {:?}: uneven gaps {:?}", show(&m), show(&out));
                    }
                    m = out;
                }
                s = j;
            }
            8 => {
                let tint = RgbaColor::rgba(g.u8(), g.u8(), g.u8(), *g.of(&[0.0, 0.25, 0.5, 1.0]));
                name = "apply_tint".into();
                s = s.apply_tint(&tint);
                if tint.a > 0.0 {
                    for c in &mut m {
                        c.style.fg = c.style.fg.as_ref().map(|x| x.tint(&tint));
                        c.style.bg = c.style.bg.as_ref().map(|x| x.tint(&tint));
                    }
                }
            }
            9 => {
                let op = *g.of(&[0.0, 0.3, 0.5, 1.0]);
                let fb = if g.bool() { Some(RgbaColor::rgb(g.u8(), g.u8(), g.u8())) } else { None };
                name = format!("apply_text_opacity({op})");
                s = s.apply_text_opacity(op, fb.as_ref());
                if op <= 0.0 {
                    m = m.into_iter().flat_map(|c| vec![Ch { g: " ".into(), w: 1, style: Style { fg: None, ..c.style.clone() }, meta: c.meta.clone() }; c.w]).collect();
                } else if op < 1.0 {
                    for c in &mut m {
                        let bg = c.style.bg.clone().or(fb.clone());
                        let fg = c.style.fg.clone().or_else(|| bg.as_ref().map(|_| RgbaColor::rgba(255, 255, 255, 1.0)));
                        c.style.fg = fg.map(|fg| match &bg {
                            Some(bg) => fg.blend_toward(bg, op),
                            None => fg.with_opacity(op),
                        });
                    }
                }
            }
            _ => {
                // a segment split anywhere loses and repeats nothing
                let segs = s.segments().to_vec();
                name = "split_at".into();
                let mut out = vec![];
                for seg in &segs {
                    let cut = g.usize(0, seg.cell_length() + 1);
                    let (l, r) = seg.split_at(cut);
                    ensure_eq!(format!("{}{}", l.text(), r.text()), seg.text().to_string(), "split_at({cut})");
                    ensure!(l.cell_length() >= cut.min(seg.cell_length()) && l.cell_length() <= cut + 1, "split_at({cut}) of {:?}: left is {} cells", seg.text(), l.cell_length());
                    if l.cell_length() > cut {
                        ensure!(graphemes(l.text()).last().is_some_and(|x| gw(x) == 2), "split_at({cut}) of {:?} overshoots without a wide character", seg.text());
                    }
                    out.push(l);
                    out.push(r);
                }
                s = Strip::from_segments(out);
            }
        }
        names.push(name.clone());
        g.note(|| name.clone());
        check(&name, &s, &m)?;
    }
    g.label_if(m.iter().any(|c| c.w == 2), "wide");
    g.label_if(m.iter().any(|c| !c.meta.is_empty()), "metadata");
    g.nontrivial_if(nops >= 2 && m.len() >= 2);
    g.key(&(start, names));
    Ok(())
}

pub static P10: Property = Property {
    id: "C10",
    rule: "at least two operations and at least two characters left at the end",
    assumptions: &["cell widths are those of the unicode-display-width table the project uses", "segments do not start with a lone combining mark"],
    parts: &[Part { name: "strip operation sequences", quick: 1_600_000, thorough: 16_000_000, f: strips }],
};
