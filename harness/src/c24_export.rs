//! C24: SVG and text exports show exactly what is on the canvas.
use crate::c11_canvas::*;
use crate::common::*;
use crate::engine::{Fail, G, Part, Property, R};
use crate::{ensure, ensure_eq, fail};
use std::collections::HashMap;
use textual::canvas::Canvas;

/// A tiny strict XML reader: (tag, attributes, text) of every element in document order.
pub fn xml(s: &str) -> Result<Vec<(String, HashMap<String, String>, String)>, Fail> {
    let mut out: Vec<(String, HashMap<String, String>, String)> = vec![];
    let mut stack: Vec<usize> = vec![];
    let mut rest = s;
    loop {
        let lt = rest.find('<').unwrap_or(rest.len());
        let raw = &rest[..lt];
        if let Some(&i) = stack.last() {
            let t = unescape(raw)?;
            out[i].2.push_str(&t);
        } else {
            ensure!(raw.trim().is_empty(), "text outside the root element: {raw:?}");
        }
        if lt == rest.len() {
            break;
        }
        rest = &rest[lt..];
        if rest.starts_with("<!--") {
            let Some(e) = rest.find("-->") else { fail!("unterminated comment") };
            rest = &rest[e + 3..];
            continue;
        }
        let Some(gt) = rest.find('>') else { fail!("unterminated tag") };
        let tag = &rest[1..gt];
        rest = &rest[gt + 1..];
        if let Some(name) = tag.strip_prefix('/') {
            let Some(i) = stack.pop() else { fail!("</{name}> closes nothing") };
            ensure_eq!(out[i].0, name.trim(), "mismatched close tag");
            continue;
        }
        let (tag, selfclose) = match tag.strip_suffix('/') {
            Some(t) => (t, true),
            None => (tag, false),
        };
        let tag = tag.trim();
        let ne = tag.find(char::is_whitespace).unwrap_or(tag.len());
        let mut attrs = HashMap::new();
        let mut a = tag[ne..].trim_start();
        while !a.is_empty() {
            let Some(eq) = a.find("=\"") else { fail!("malformed attribute near {a:?}") };
            let v = &a[eq + 2..];
            let Some(q) = v.find('"') else { fail!("unterminated attribute near {a:?}") };
            attrs.insert(a[..eq].trim().to_string(), unescape(&v[..q])?);
            a = v[q + 1..].trim_start();
        }
        out.push((tag[..ne].to_string(), attrs, String::new()));
        if !selfclose {
            stack.push(out.len() - 1);
        }
    }
    ensure!(stack.is_empty(), "unclosed element {:?}", stack.last().map(|&i| out[i].0.clone()));
    Ok(out)
}

fn unescape(s: &str) -> Result<String, Fail> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        o.push_str(&rest[..p]);
        let Some(e) = rest[p..].find(';') else { fail!("bare ampersand in {s:?}") };
        match &rest[p + 1..p + e] {
            "lt" => o.push('<'),
            "gt" => o.push('>'),
            "amp" => o.push('&'),
            "quot" => o.push('"'),
            "apos" => o.push('\''),
            "#160" => o.push('\u{a0}'),
            x => fail!("unknown entity &{x};"),
        }
        rest = &rest[p + e + 1..];
    }
    o.push_str(rest);
    ensure!(!o.chars().any(|c| c.is_control() && c != '\n' && c != '\t'), "control character in XML {o:?}");
    Ok(o)
}

const CW: f32 = 12.2;
const LH: f32 = 24.4;

fn num(a: &HashMap<String, String>, k: &str) -> Result<f32, Fail> {
    match a.get(k).and_then(|v| v.parse::<f32>().ok()) {
        Some(v) => Ok(v),
        None => Err(Fail(format!("attribute {k} missing or not a number in {a:?}"))),
    }
}

fn cell(v: f32, unit: f32) -> Result<usize, Fail> {
    let n = (v / unit).round();
    ensure!((v - n * unit).abs() < 0.05 * unit && n >= 0.0, "{v} is not on the grid of {unit}");
    Ok(n as usize)
}

fn export(g: &mut G) -> R {
    let (w, h) = (g.u16(1, 12), g.u16(1, 4));
    let mut c = Canvas::new(w, h);
    let mut log = vec![];
    for _ in 0..g.usize(0, 6) {
        let d = draw_any(g, &mut c, w, h);
        g.note(|| d.clone());
        log.push(d);
    }
    let cells = canvas_cells(&c);
    let svg = c.to_svg(None);
    let els = xml(&svg)?;
    let css: String = els.iter().filter(|e| e.0 == "style").map(|e| e.2.clone()).collect();
    let mut classes: HashMap<String, (u8, u8, u8)> = HashMap::new();
    for l in css.lines() {
        if let Some((n, v)) = l.trim().strip_prefix('.').and_then(|l| l.split_once(" { fill: #")) {
            let v = v.trim_end_matches([' ', '}']);
            let p = |i: usize| u8::from_str_radix(&v[i..i + 2], 16).unwrap_or(0);
            ensure!(classes.insert(n.to_string(), (p(0), p(2), p(4))).is_none(), "class {n} defined twice");
        }
    }
    let (w, h) = (w as usize, h as usize);
    // backgrounds
    let mut bg = vec![None; w * h];
    let mut text: Vec<Option<(String, Option<(u8, u8, u8)>, String)>> = vec![None; w * h];
    for (tag, a, t) in &els {
        if tag == "rect" && a.contains_key("fill") {
            let (x, y) = (cell(num(a, "x")?, CW)?, cell(num(a, "y")?, LH)?);
            let n = cell(num(a, "width")?, CW)?;
            ensure!(x + n <= w && y < h, "background rectangle off the canvas");
            let v = &a["fill"];
            let p = |i: usize| u8::from_str_radix(&v[i..i + 2], 16).unwrap_or(0);
            for k in x..x + n {
                ensure!(bg[y * w + k].is_none(), "background of ({k},{y}) drawn twice");
                bg[y * w + k] = Some((p(1), p(3), p(5)));
            }
        }
        if tag == "text" {
            let x = cell(num(a, "x")?, CW)?;
            let y = cell(num(a, "y")? + 4.0, LH)?.wrapping_sub(1);
            ensure!(y < h, "text off the canvas");
            let cols = cell(num(a, "textLength")?, CW)?;
            let fg = classes.get(&a["class"]).copied();
            let mut p = x;
            for gr in graphemes(t) {
                let gr = gr.replace('\u{a0}', " ");
                ensure!(p + gw(&gr) <= w, "text {t:?} runs off row {y}");
                ensure!(text[y * w + p].is_none(), "text at ({p},{y}) drawn twice");
                let at = y * w + p;
                p += gw(&gr);
                text[at] = Some((gr, fg, a.get("style").cloned().unwrap_or_default()));
            }
            ensure_eq!(p - x, cols, "textLength of {t:?}");
        }
    }
    for i in 0..w * h {
        let m = &cells[i];
        ensure_eq!(bg[i], m.bg, "SVG background of cell ({},{})", i % w, i / w);
        let Glyph::Lead(s) = &m.glyph else { continue };
        match &text[i] {
            None => ensure!(s.trim().is_empty(), "SVG lacks {s:?} at ({},{})", i % w, i / w),
            Some((t, fg, style)) => {
                ensure_eq!(*t, s.replace('\u{a0}', " "), "SVG text at ({},{})", i % w, i / w);
                if !s.trim().is_empty() {
                    ensure_eq!(*fg, m.fg, "SVG colour at ({},{})", i % w, i / w);
                    ensure_eq!(style.contains("bold"), m.attrs.bold, "SVG bold at ({},{})", i % w, i / w);
                    ensure_eq!(style.contains("italic"), m.attrs.italic, "SVG italic at ({},{})", i % w, i / w);
                    ensure_eq!(style.contains("underline"), m.attrs.underline, "SVG underline at ({},{})", i % w, i / w);
                    ensure_eq!(style.contains("line-through"), m.attrs.strike, "SVG strike at ({},{})", i % w, i / w);
                }
            }
        }
    }
    ensure_eq!(c.to_svg(None), svg, "two exports of one canvas differ");
    // text snapshots
    let plain: Vec<String> = (0..h).map(|y| (0..w).map(|x| match &cells[y * w + x].glyph { Glyph::Lead(s) => s.as_str(), Glyph::Cont => " " }).collect::<String>()).collect();
    ensure_eq!(c.to_snapshot(), plain.iter().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n"), "to_snapshot()");
    let ansi = c.to_ansi_snapshot();
    let rows: Vec<&str> = ansi.split('\n').collect();
    ensure_eq!(rows.len(), h, "rows of to_ansi_snapshot()");
    for (y, row) in rows.iter().enumerate() {
        // replay: every cell is printed as its symbol, a trailing half as one space
        let mut i = y * w;
        let mut st = Sgr::default();
        let mut rest = *row;
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix("\x1b[") {
                let Some(e) = r.find('m') else { fail!("bad escape in snapshot") };
                st.apply(&r[..e])?;
                rest = &r[e + 1..];
                continue;
            }
            ensure!(i < (y + 1) * w, "snapshot row {y} is too long");
            let m = &cells[i];
            let sym = match &m.glyph {
                Glyph::Lead(s) => s.as_str(),
                Glyph::Cont => " ",
            };
            let Some(r) = rest.strip_prefix(sym) else { fail!("snapshot row {y} has {:?} where {sym:?} belongs", rest.chars().next()) };
            ensure_eq!((st.fg, st.bg, st.at), (m.fg, m.bg, m.attrs), "snapshot style of cell ({},{y})", i % w);
            rest = r;
            i += 1;
        }
        ensure_eq!(i, (y + 1) * w, "cells in snapshot row {y}");
    }
    g.nontrivial_if(cells.iter().any(|c| matches!(&c.glyph, Glyph::Lead(s) if s != " ")));
    g.label_if(cells.iter().any(|c| c.fg.is_none() && matches!(&c.glyph, Glyph::Lead(s) if s != " ")), "unstyled text");
    g.label_if(cells.iter().any(|c| c.glyph == Glyph::Cont), "wide text");
    g.key(&log);
    Ok(())
}

pub static P24: Property = Property {
    id: "C24",
    rule: "the canvas shows at least one non-blank character",
    assumptions: &["blank cells may be left out of the SVG text", "dim, reverse and the title have no SVG form here and are not compared"],
    parts: &[Part { name: "exports of drawn canvases", quick: 800_000, thorough: 8_000_000, f: export }],
};
