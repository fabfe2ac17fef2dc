//! C32: the macros. `ui!` and `widget!` are decided by compiling: each case is a program of many randomly spelled trees,
//! built with the project's macros over stand-in widgets that record how they were made; what it prints must be the trees
//! that were meant. `impl_widget_delegation!` (and the boxed widget) is decided by calling a wrapper and the widget itself.
use crate::engine::{Fail, G, Part, Property, R};
use crate::trees::mouse_event;
use crate::{ensure, ensure_eq, fail};
use crossterm::event::{KeyCode, MouseButton, MouseEvent, MouseEventKind};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::process::Command;
use std::rc::Rc;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};
use tcss::types::{Display, RgbaColor};
use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
use textual::layouts::Layout;
use textual::message::MessageEnvelope;
use textual::widget::SenderInfo;
use textual::{Canvas, Region, Size, Widget};

/// The stand-ins: leaves and containers of 0 to 2 arguments, `LF` and `with_on` take something to call.
const PRELUDE: &str = r##"
use std::cell::Cell;
use std::fmt::Debug;
use textual_macros::{ui, widget};
pub trait Widget<M> { fn tell(&self) -> String; }
pub struct Node { name: &'static str, args: Vec<String>, calls: Vec<String>, kids: Option<Vec<String>> }
impl Node { fn tell_it(&self) -> String {
    let mut s = self.name.to_string();
    s += &format!("({})", self.args.join("; "));
    for c in &self.calls { s += &format!(".{c}"); }
    if let Some(k) = &self.kids { s += &format!("{{{}}}", k.join(" ")); }
    s
} }
macro_rules! def { ($($t:ident ($($a:ident),*) $kids:ident;)*) => { $(
    pub struct $t(Node);
    impl $t {
        pub fn new($($a: impl Debug,)* kids: def!(@ty $kids)) -> Self { $t(Node { name: stringify!($t), args: vec![$(format!("{:?}", $a)),*], calls: vec![], kids: def!(@val $kids kids) }) }
    }
    def!(@rest $t);
)* };
(@ty kids) => { Vec<Box<dyn Widget<()>>> };
(@val kids $k:ident) => { Some($k.iter().map(|k| k.tell()).collect()) };
(@rest $t:ident) => {
    #[allow(dead_code)]
    impl $t {
        def!(@with $t with_id with_classes with_disabled with_x with_a_long_name);
        pub fn with_on(mut self, f: impl Fn(i32) -> i32) -> Self { self.0.calls.push(format!("with_on({})", f(7))); self }
    }
    impl Widget<()> for $t { fn tell(&self) -> String { self.0.tell_it() } }
};
(@with $t:ident $($w:ident)*) => { $( pub fn $w(mut self, v: impl Debug) -> Self { self.0.calls.push(format!("{}({:?})", stringify!($w), v)); self } )* };
}
def! { P0() kids; P1(a) kids; P2(a, b) kids; }
macro_rules! leaf { ($($t:ident ($($a:ident),*);)*) => { $(
    pub struct $t(Node);
    impl $t { pub fn new($($a: impl Debug),*) -> Self { $t(Node { name: stringify!($t), args: vec![$(format!("{:?}", $a)),*], calls: vec![], kids: None }) } }
    def!(@rest $t);
)* } }
leaf! { L0(); L1(a); L2(a, b); }
pub struct LF(Node);
impl LF { pub fn new(f: impl Fn(i32) -> i32) -> Self { LF(Node { name: "LF", args: vec![f(20).to_string()], calls: vec![], kids: None }) } }
def!(@rest LF);
pub mod k { pub const NINE: i32 = 9; pub fn twice(v: i32) -> i32 { v * 2 } pub mod deep { pub fn name() -> &'static str { "deep" } } }
#[derive(Debug, Clone)] #[allow(dead_code)] pub struct S { pub a: i32, pub b: bool }
thread_local! { static TICKS: Cell<usize> = const { Cell::new(0) }; }
pub fn tick<T>(v: T) -> T { TICKS.with(|t| t.set(t.get() + 1)); v }
pub fn leaves(names: &[&'static str]) -> Vec<Box<dyn Widget<()>>> { names.iter().map(|n| Box::new(L1::new(*n)) as Box<dyn Widget<()>>).collect() }
pub fn tell(v: Vec<Box<dyn Widget<()>>>) -> String { v.iter().map(|w| w.tell()).collect::<Vec<_>>().join(" ") }
pub fn show(n: usize, what: String) { println!("{n}\t{}\t{what}", TICKS.with(|t| t.replace(0))); }
"##;

/// A spelling as a list of tokens, and what it comes to.
struct Spelled {
    tokens: Vec<String>,
    means: String,
}

#[derive(Default)]
struct Build {
    ticks: usize,
    splats: usize,
    named: usize,
    nodes: usize,
}

fn t(s: &mut Vec<String>, x: &str) {
    s.push(x.into());
}

/// An expression and its value's `Debug`; `int` asks for an `i32`.
fn expr(g: &mut G, b: &mut Build, depth: usize, int: bool) -> Spelled {
    let lit = |s: &str, m: &str| Spelled { tokens: vec![s.into()], means: m.into() };
    let n = g.int(0, 9);
    if int {
        let kinds = if depth == 0 { 4 } else { 10 };
        return match g.below(kinds) {
            0 => lit(&n.to_string(), &n.to_string()),
            1 => lit("x", "41"),
            2 => Spelled { tokens: ["k", "::", "NINE"].map(String::from).to_vec(), means: "9".into() },
            3 => lit("1_000", "1000"),
            4 | 5 => {
                let (l, r) = (expr(g, b, depth - 1, true), expr(g, b, depth - 1, true));
                let v: i64 = l.means.parse::<i64>().unwrap() + r.means.parse::<i64>().unwrap();
                let mut s = vec!["(".to_string()];
                s.extend(l.tokens);
                t(&mut s, "+");
                s.extend(r.tokens);
                t(&mut s, ")");
                Spelled { tokens: s, means: v.to_string() }
            }
            6 => {
                let e = expr(g, b, depth - 1, true);
                let mut s = ["k", "::", "twice", "("].map(String::from).to_vec();
                s.extend(e.tokens);
                t(&mut s, ")");
                Spelled { tokens: s, means: (e.means.parse::<i64>().unwrap() * 2).to_string() }
            }
            7 => {
                b.ticks += 1;
                let e = expr(g, b, depth - 1, true);
                let mut s = ["tick", "("].map(String::from).to_vec();
                s.extend(e.tokens);
                t(&mut s, ")");
                Spelled { tokens: s, means: e.means }
            }
            8 => {
                let e = expr(g, b, depth - 1, true);
                let mut s = ["{", "let", "y", ":", "i32", "="].map(String::from).to_vec();
                s.extend(e.tokens);
                s.extend([";", "y", "}"].map(String::from));
                Spelled { tokens: s, means: e.means }
            }
            _ => Spelled {
                tokens: ["(", "0", "..", "4", ")", ".", "sum", "::", "<", "i32", ">", "(", ")"].map(String::from).to_vec(),
                means: "6".into(),
            },
        };
    }
    let kinds = if depth == 0 { 6 } else { 13 };
    match g.below(kinds) {
        0 => {
            let s = *g.of(&["hello", "", "a, b: c", "{ P0 }", "..x", "q\"q", "))", "with_id", "é // 中"]);
            lit(&format!("{s:?}"), &format!("{s:?}"))
        }
        1 => expr(g, b, depth, true),
        2 => lit("true", "true"),
        3 => lit("':'", "':'"),
        4 => lit("r#\"ra\"w\"#", "\"ra\\\"w\""),
        5 => Spelled { tokens: ["k", "::", "deep", "::", "name", "(", ")"].map(String::from).to_vec(), means: "\"deep\"".into() },
        6 => {
            let (l, r) = (expr(g, b, depth - 1, false), expr(g, b, depth - 1, false));
            let mut s = vec!["(".to_string()];
            s.extend(l.tokens);
            t(&mut s, ",");
            s.extend(r.tokens);
            t(&mut s, ")");
            Spelled { tokens: s, means: format!("({}, {})", l.means, r.means) }
        }
        7 => {
            let e = expr(g, b, depth - 1, false);
            let mut s = ["Some", "("].map(String::from).to_vec();
            s.extend(e.tokens);
            t(&mut s, ")");
            Spelled { tokens: s, means: format!("Some({})", e.means) }
        }
        8 => {
            let e = expr(g, b, depth - 1, true);
            let mut s = ["S", "{", "a", ":"].map(String::from).to_vec();
            s.extend(e.tokens.clone());
            s.extend([",", "b", ":", "false", "}"].map(String::from));
            Spelled { tokens: s, means: format!("S {{ a: {}, b: false }}", e.means) }
        }
        9 => {
            let (l, r) = (expr(g, b, depth - 1, true), expr(g, b, depth - 1, true));
            let mut s = ["vec", "!", "["].map(String::from).to_vec();
            s.extend(l.tokens);
            t(&mut s, ",");
            s.extend(r.tokens);
            t(&mut s, "]");
            Spelled { tokens: s, means: format!("[{}, {}]", l.means, r.means) }
        }
        10 => {
            // Only the branch taken counts.
            let yes = expr(g, b, depth - 1, true);
            let before = b.ticks;
            let no = expr(g, b, depth - 1, true);
            b.ticks = before;
            let mut s = ["if", "x", "==", "41", "{"].map(String::from).to_vec();
            s.extend(yes.tokens);
            s.extend(["}", "else", "{"].map(String::from));
            s.extend(no.tokens);
            t(&mut s, "}");
            Spelled { tokens: s, means: yes.means }
        }
        11 => {
            let inner = node(g, b, depth.min(1) - 1, true);
            let mut s = ["widget", "!", "{"].map(String::from).to_vec();
            s.extend(inner.tokens);
            s.extend(["}", ".", "tell", "(", ")"].map(String::from));
            // The macro cannot tell the message type of a widget that is not kept.
            let mut all = ["{", "let", "w", ":", "Box", "<", "dyn", "Widget", "<", "(", ")", ">>", "="].map(String::from).to_vec();
            let call = s.split_off(s.len() - 4);
            all.extend(s);
            all.extend([";", "w"].map(String::from));
            all.extend(call);
            t(&mut all, "}");
            Spelled { tokens: all, means: format!("{:?}", inner.means) }
        }
        _ => {
            b.ticks += 1;
            let e = expr(g, b, depth - 1, false);
            let mut s = ["tick", "("].map(String::from).to_vec();
            s.extend(e.tokens);
            t(&mut s, ")");
            Spelled { tokens: s, means: e.means }
        }
    }
}

/// Something to call: its spelling and what it makes of `v`.
fn callable(g: &mut G, v: i64) -> (Vec<String>, i64) {
    let (s, r): (&[&str], i64) = match g.below(4) {
        0 => (&["|", "v", "|", "v", "*", "3"], v * 3),
        1 => (&["move", "|", "v", ":", "i32", "|", "{", "let", "w", "=", "v", "-", "1", ";", "w", "}"], v - 1),
        2 => (&["k", "::", "twice"], v * 2),
        _ => (&["|", "_", "|", "x"], 41),
    };
    (s.iter().map(|s| s.to_string()).collect(), r)
}

fn node(g: &mut G, b: &mut Build, depth: usize, leaf: bool) -> Spelled {
    b.nodes += 1;
    let container = !leaf && g.chance(1, 2);
    let calls = !container && g.chance(1, 6);
    let n = if calls { 0 } else { g.usize(0, 2) };
    let name = if calls { "LF".to_string() } else { format!("{}{n}", if container { "P" } else { "L" }) };
    let mut s = vec![name.clone()];
    let mut args: Vec<Vec<String>> = vec![];
    let mut told = vec![];
    if calls {
        let (e, v) = callable(g, 20);
        args.push(e);
        told.push(v.to_string());
    }
    let depth_of = |g: &mut G| if depth > 0 && g.chance(1, 3) { 2 } else { g.usize(0, 1) };
    for _ in 0..n {
        let d = depth_of(g).min(depth + 1);
        let e = expr(g, b, d, false);
        args.push(e.tokens);
        told.push(e.means);
    }
    let mut chain = String::new();
    for _ in 0..(if g.chance(1, 2) { g.usize(1, 3) } else { 0 }) {
        b.named += 1;
        let (attr, value, v) = if g.chance(1, 4) {
            let (e, v) = callable(g, 7);
            ("on", e, v.to_string())
        } else {
            let d = depth_of(g).min(depth + 1);
            let e = expr(g, b, d, false);
            (*g.of(&["id", "classes", "disabled", "x", "a_long_name"]), e.tokens, e.means)
        };
        let mut a = vec![attr.to_string(), ":".to_string()];
        a.extend(value);
        args.push(a);
        let _ = write!(chain, ".with_{attr}({v})");
    }
    if !args.is_empty() || g.chance(2, 3) {
        t(&mut s, "(");
        let last = args.len();
        for (i, a) in args.into_iter().enumerate() {
            s.extend(a);
            if i + 1 < last || g.chance(1, 5) {
                t(&mut s, ",");
            }
        }
        t(&mut s, ")");
    }
    let mut means = format!("{name}({}){chain}", told.join("; "));
    if container {
        t(&mut s, "{");
        let kids = if g.chance(1, 6) || depth == 0 { Spelled { tokens: vec![], means: String::new() } } else { items(g, b, depth - 1, 0) };
        s.extend(kids.tokens);
        t(&mut s, "}");
        let _ = write!(means, "{{{}}}", kids.means);
    }
    Spelled { tokens: s, means }
}

fn splat(g: &mut G, b: &mut Build) -> Spelled {
    b.splats += 1;
    let (s, m): (&[&str], &str) = match g.below(8) {
        0 => (&["leaves", "(", "&", "[", "\"a\"", ",", "\"b\"", "]", ")"], "L1(\"a\") L1(\"b\")"),
        1 => (&["leaves", "(", "&", "[", "]", ")"], ""),
        2 => (&["{", "let", "v", "=", "leaves", "(", "&", "[", "\"c\"", "]", ")", ";", "v", "}"], "L1(\"c\")"),
        3 => (&["[", "3", ",", "4", "]", ".", "iter", "(", ")", ".", "map", "(", "|", "n", "|", "widget", "!", "{", "L1", "(", "*", "n", ",", "id", ":", "n", "+", "1", ")", "}", ")"], "L1(3).with_id(4) L1(4).with_id(5)"),
        4 => (&["if", "x", "==", "41", "{", "leaves", "(", "&", "[", "\"yes\"", "]", ")", "}", "else", "{", "leaves", "(", "&", "[", "]", ")", "}"], "L1(\"yes\")"),
        5 => (&["(", "0", "..", "3", ")", ".", "map", "(", "|", "n", "|", "widget", "!", "(", "L1", "(", "n", ",", "x", ":", "n", "*", "2", ")", ")", ")"], "L1(0).with_x(0) L1(1).with_x(2) L1(2).with_x(4)"),
        6 => (&["ui", "!", "{", "L0", "(", ")", "..", "leaves", "(", "&", "[", "\"d\"", "]", ")", "}"], "L0() L1(\"d\")"),
        _ => (&["Some", "(", "widget", "!", "[", "L0", "(", "id", ":", "\"o\"", ")", "]", ")"], "L0().with_id(\"o\")"),
    };
    let mut tokens = vec!["..".to_string()];
    tokens.extend(s.iter().map(|s| s.to_string()));
    Spelled { tokens, means: m.into() }
}

/// A list of widgets and splats.
fn items(g: &mut G, b: &mut Build, depth: usize, min: usize) -> Spelled {
    let mut s = vec![];
    let mut means: Vec<String> = vec![];
    for _ in 0..g.usize(min, 3) {
        let i = if g.chance(1, 5) { splat(g, b) } else { node(g, b, depth, false) };
        s.extend(i.tokens);
        means.push(i.means);
    }
    means.retain(|m| !m.is_empty());
    Spelled { tokens: s, means: means.join(" ") }
}

/// Tokens as text, with room between them as it pleases.
fn spell(g: &mut G, tokens: &[String]) -> String {
    let mut s = String::new();
    let roomy = g.chance(1, 3);
    for (i, k) in tokens.iter().enumerate() {
        s.push_str(k);
        if roomy && g.chance(1, 6) {
            s.push_str(*g.of(&["\n", "  ", "\n    ", " /* , .. { */ ", " // ) x: 1\n", "\t"]));
        } else {
            let word = |k: &str| k.chars().next().is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '"' || c == '\'');
            let next = tokens.get(i + 1).map(|s| s.as_str()).unwrap_or("");
            let tight = (k == "(" || next == ")" || next == "(" || next == "," || k == "{" || next == "}" || k == ":") && !(word(k) && word(next));
            if !tight || g.chance(1, 4) {
                s.push(' ');
            }
        }
    }
    s
}

fn scratch() -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    // Next to this program, where programs are known to be runnable.
    let here = std::env::current_exe().ok().and_then(|e| e.parent().map(PathBuf::from)).unwrap_or_else(std::env::temp_dir);
    here.join("ui-scratch").join(format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)))
}

/// The macros as just built together with this program.
fn library() -> Result<&'static PathBuf, Fail> {
    static LIB: OnceLock<Option<PathBuf>> = OnceLock::new();
    let found = LIB.get_or_init(|| {
        let deps = std::env::current_exe().ok()?.parent()?.join("deps");
        let mut all: Vec<(std::time::SystemTime, PathBuf)> = std::fs::read_dir(deps)
            .ok()?
            .flatten()
            .filter(|e| {
                let n = e.file_name();
                let n = n.to_string_lossy();
                n.starts_with("libtextual_macros-") && n.ends_with(".so")
            })
            .filter_map(|e| Some((e.metadata().ok()?.modified().ok()?, e.path())))
            .collect();
        all.sort();
        all.pop().map(|p| p.1)
    });
    found.as_ref().ok_or_else(|| panic!("HARNESS: the macros' library is not where the build leaves it"))
}

/// Compile a program; its standard output, or the compiler's errors.
fn compile_and_run(source: &str) -> Result<Result<String, String>, Fail> {
    let lib = library()?;
    let dir = scratch();
    std::fs::create_dir_all(&dir).expect("HARNESS: scratch directory");
    let file = dir.join("case.rs");
    let exe = dir.join("case");
    std::fs::write(&file, source).expect("HARNESS: scratch file");
    let out = Command::new("rustc")
        .args(["--edition", "2024", "--crate-name", "case", "-Cdebuginfo=0", "-Awarnings", "--color=never"])
        .arg("--extern")
        .arg(format!("textual_macros={}", lib.display()))
        .arg("-o")
        .arg(&exe)
        .arg(&file)
        .output()
        .expect("HARNESS: rustc");
    let r = if out.status.success() {
        let run = Command::new(&exe).output().expect("HARNESS: running the case");
        Ok(String::from_utf8_lossy(&run.stdout).into_owned())
    } else {
        Err(String::from_utf8_lossy(&out.stderr).into_owned())
    };
    let _ = std::fs::remove_dir_all(&dir);
    Ok(r)
}

/// The lines of the case that the compiler complains about.
fn blamed(errors: &str) -> Vec<usize> {
    errors.lines().filter_map(|l| l.trim().strip_prefix("--> ")?.rsplit(':').nth(1)?.parse().ok()).collect()
}

fn build(g: &mut G) -> R {
    let n = g.usize(1, 40);
    let mut source = PRELUDE.to_string();
    let mut meant = vec![];
    let mut all = Build::default();
    let mut spans = vec![];
    for i in 0..n {
        let mut b = Build::default();
        let (text, means) = if g.chance(1, 6) {
            let one = node(g, &mut b, 2, false);
            (format!("widget! {{ {} }}", spell(g, &one.tokens)), one.means)
        } else {
            let mut many = items(g, &mut b, 2, 1);
            if many.tokens.is_empty() {
                many = node(g, &mut b, 0, true);
            }
            let (open, close) = *g.of(&[("{", "}"), ("{", "}"), ("(", ")"), ("[", "]")]);
            (format!("ui!{open} {} {close}", spell(g, &many.tokens)), many.means)
        };
        let call = if text.starts_with("widget") { format!("let w: Box<dyn Widget<()>> = {text}; show({i}, w.tell());") } else { format!("let v: Vec<Box<dyn Widget<()>>> = {text}; show({i}, tell(v));") };
        let from = source.lines().count() + 1;
        let _ = writeln!(source, "fn case{i}() {{ #[allow(unused)] let x: i32 = 41;\n{call}\n}}");
        spans.push(from..source.lines().count() + 1);
        meant.push((text, b.ticks, means));
        all.splats += b.splats;
        all.named += b.named;
        all.nodes += b.nodes;
    }
    let _ = writeln!(source, "fn main() {{ {} }}", (0..n).map(|i| format!("case{i}();")).collect::<String>());
    g.note(|| meant.iter().map(|(t, _, m)| format!("{t}\n  meaning {m}")).collect::<Vec<_>>().join("\n"));
    g.cases_inside += n as u64;
    g.label_if(all.splats > 0, "with splats");
    match compile_and_run(&source)? {
        Ok(out) => {
            let mut lines = out.lines();
            for (i, (text, ticks, means)) in meant.iter().enumerate() {
                let want = format!("{i}\t{ticks}\t{means}");
                ensure_eq!(lines.next().unwrap_or(""), want.as_str(), "tree (number, evaluations counted, widgets) built by\n{text}\n");
            }
        }
        Err(errors) => {
            let bad = blamed(&errors);
            let which = spans.iter().position(|s| bad.iter().any(|l| s.contains(l)));
            let shown: String = errors.chars().take(1500).collect();
            match which {
                Some(i) => fail!("refused: {}\n{shown}", meant[i].0),
                None => fail!("the program does not compile:\n{shown}"),
            }
        }
    }
    g.nontrivial_if(all.nodes >= n && all.named > 0);
    Ok(())
}

/// Spellings that must not compile, each a mistake in an otherwise good tree.
fn refuse(g: &mut G) -> R {
    let n = g.usize(1, 20);
    let mut source = PRELUDE.to_string();
    let mut spans = vec![];
    let mut texts = vec![];
    for i in 0..n {
        let mut b = Build::default();
        let good = |g: &mut G, b: &mut Build| {
            let s = node(g, b, 1, false).tokens;
            spell(g, &s)
        };
        let a = if g.bool() { good(g, &mut b) } else { String::new() };
        let z = if g.bool() { good(g, &mut b) } else { String::new() };
        let e = |g: &mut G, b: &mut Build| {
            let s = expr(g, b, 1, false).tokens;
            spell(g, &s)
        };
        let (v, w) = (e(g, &mut b), e(g, &mut b));
        let text = match g.below(9) {
            7 => format!("{a} L2({v}, id: {v}, {w}) {z}"),
            8 => format!("{a} P2({v}, x: 1, classes: \"c\", {w}) {{}} {z}"),
            0 => format!("{a} L1(id: {v}, {w}) {z}"),
            1 => format!("{a} P1(x: {v}, classes: \"c\", {w}) {{ {z} }}"),
            2 => format!("{a} \"text\" {z}"),
            3 => format!("{a} P0 {{ {z} 12 }}"),
            4 => format!("{a} L1({v}, id: ) {z}"),
            5 => format!("{a} P0 {{ L0() .. }}"),
            _ => String::new(),
        };
        let text = text.trim().to_string();
        let call = if text.is_empty() {
            if g.bool() { "let v: Vec<Box<dyn Widget<()>>> = ui! {};".to_string() } else { "let w: Box<dyn Widget<()>> = widget! {};".into() }
        } else if g.chance(1, 6) {
            format!("let w: Box<dyn Widget<()>> = widget! {{ L0() L1({v}) }};")
        } else {
            format!("let v: Vec<Box<dyn Widget<()>>> = ui! {{ {text}\n }};")
        };
        let from = source.lines().count() + 1;
        let _ = writeln!(source, "fn case{i}() {{ #[allow(unused)] let x: i32 = 41;\n{call}\n}}");
        spans.push(from..source.lines().count() + 1);
        texts.push(call);
    }
    source.push_str("fn main() {}\n");
    g.note(|| texts.join("\n"));
    g.cases_inside += n as u64;
    match compile_and_run(&source)? {
        Ok(_) => fail!("compiles:\n{}", texts.join("\n")),
        Err(errors) => {
            let bad = blamed(&errors);
            for (i, s) in spans.iter().enumerate() {
                ensure!(bad.iter().any(|l| s.contains(l)), "no error in\n{}", texts[i]);
            }
        }
    }
    g.nontrivial_if(n >= 3);
    Ok(())
}

/// A widget whose answers depend on a seed and on what it was told before, and that notes everything it is told.
struct Subject<M: 'static> {
    seed: u64,
    log: Rc<RefCell<Vec<String>>>,
    id: Option<String>,
    title: Option<String>,
    inline: Option<StyleOverride>,
    kids: Vec<Box<dyn Widget<M>>>,
    message: fn(u64) -> M,
}

impl<M: 'static> Subject<M> {
    fn heard(&self, what: String) -> u64 {
        let mut l = self.log.borrow_mut();
        let v = crate::engine::fnv(format!("{} {} {what}", self.seed, l.len()).as_bytes());
        l.push(what);
        v
    }
    fn answer(&self, what: &str) -> u64 {
        crate::engine::fnv(format!("{} {} {what}", self.seed, self.log.borrow().len()).as_bytes())
    }
    fn yes(&self, what: &str) -> bool {
        self.answer(what) >> 7 & 1 == 1
    }
    fn text(&self, what: &str) -> Option<String> {
        self.yes(what).then(|| format!("{what} {}", self.answer(what) % 97))
    }
}

fn dim(v: u64) -> Size {
    Size { width: (v % 80) as u16, height: (v / 80 % 40) as u16 }
}

impl<M: 'static> Widget<M> for Subject<M> {
    fn render(&self, canvas: &mut Canvas, r: Region) {
        let v = self.heard(format!("render {r:?}"));
        canvas.put_char(r.x, r.y, char::from(b'a' + (v % 26) as u8), Some(RgbaColor::rgb(v as u8, 1, 2)), None, Default::default());
    }
    fn desired_size(&self) -> Size {
        dim(self.answer("desired_size"))
    }
    fn intrinsic_height_for_width(&self, w: u16) -> u16 {
        (self.answer(&format!("intrinsic {w}")) % 50) as u16
    }
    fn content_height_for_scroll(&self, w: u16, h: u16) -> u16 {
        (self.answer(&format!("height {w} {h}")) % 50) as u16
    }
    fn content_width_for_scroll(&self, w: u16) -> u16 {
        (self.answer(&format!("width {w}")) % 50) as u16
    }
    fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
        for k in &mut self.kids {
            f(k.as_mut());
        }
    }
    fn on_resize(&mut self, s: Size) {
        self.heard(format!("on_resize {s:?}"));
    }
    fn get_state(&self) -> WidgetStates {
        WidgetStates::from_bits_truncate(self.answer("get_state") as _)
    }
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: "Subject", type_names: vec!["Subject"], id: self.id.clone(), classes: self.classes(), states: self.get_state() }
    }
    fn default_css(&self) -> &'static str {
        "Subject { color: red; }"
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.heard(format!("set_style {:?}", s.color));
    }
    fn get_style(&self) -> ComputedStyle {
        let v = self.answer("get_style");
        let mut s = ComputedStyle::default();
        s.color = Some(RgbaColor::rgb(v as u8, (v >> 8) as u8, 3));
        if v & 3 == 0 {
            s.display = Display::None;
        }
        s
    }
    fn set_inline_style(&mut self, s: StyleOverride) {
        self.heard(format!("set_inline_style {:?}", s.color));
        self.inline = Some(s);
    }
    fn inline_style(&self) -> Option<&StyleOverride> {
        self.inline.as_ref()
    }
    fn clear_inline_style(&mut self) {
        self.heard("clear_inline_style".into());
        self.inline = None;
    }
    fn tooltip(&self) -> Option<String> {
        self.text("tooltip")
    }
    fn set_tooltip(&mut self, t: Option<String>) {
        self.heard(format!("set_tooltip {t:?}"));
    }
    fn pre_layout(&mut self, _: &mut dyn Layout) {
        self.heard("pre_layout".into());
    }
    fn set_focus(&mut self, f: bool) {
        self.heard(format!("set_focus {f}"));
    }
    fn is_focused(&self) -> bool {
        self.yes("is_focused")
    }
    fn is_dirty(&self) -> bool {
        self.yes("is_dirty")
    }
    fn mark_dirty(&mut self) {
        self.heard("mark_dirty".into());
    }
    fn mark_clean(&mut self) {
        self.heard("mark_clean".into());
    }
    fn on_event(&mut self, k: KeyCode) -> Option<M> {
        let v = self.heard(format!("on_event {k:?}"));
        (v & 8 == 0).then(|| (self.message)(v))
    }
    fn on_mouse(&mut self, e: MouseEvent, r: Region) -> Option<M> {
        let v = self.heard(format!("on_mouse {e:?} {r:?}"));
        (v & 8 == 0).then(|| (self.message)(v))
    }
    fn on_mouse_with_sender(&mut self, e: MouseEvent, r: Region) -> Option<(M, SenderInfo)> {
        let v = self.heard(format!("on_mouse_with_sender {e:?} {r:?}"));
        (v & 8 == 0).then(|| ((self.message)(v), SenderInfo { id: Some(format!("s{}", v % 9)), type_name: "Inside" }))
    }
    fn blocks_mouse_events(&self) -> bool {
        self.yes("blocks_mouse_events")
    }
    fn set_hover(&mut self, h: bool) -> bool {
        self.heard(format!("set_hover {h}")) & 8 == 0
    }
    fn set_active(&mut self, h: bool) -> bool {
        self.heard(format!("set_active {h}")) & 8 == 0
    }
    fn clear_hover(&mut self) {
        self.heard("clear_hover".into());
    }
    fn take_pending_action(&self) -> Option<String> {
        let v = self.heard("take_pending_action".into());
        (v & 8 == 0).then(|| format!("action {}", v % 97))
    }
    fn is_focusable(&self) -> bool {
        self.yes("is_focusable")
    }
    fn is_visible(&self) -> bool {
        self.yes("is_visible")
    }
    fn set_visible(&mut self, v: bool) {
        self.heard(format!("set_visible {v}"));
    }
    fn is_loading(&self) -> bool {
        self.yes("is_loading")
    }
    fn set_loading(&mut self, v: bool) {
        self.heard(format!("set_loading {v}"));
    }
    fn is_disabled(&self) -> bool {
        self.yes("is_disabled")
    }
    fn set_disabled(&mut self, v: bool) {
        self.heard(format!("set_disabled {v}"));
    }
    fn count_focusable(&self) -> usize {
        (self.answer("count_focusable") % 7) as usize
    }
    fn clear_focus(&mut self) {
        self.heard("clear_focus".into());
    }
    fn focus_nth(&mut self, n: usize) -> bool {
        self.heard(format!("focus_nth {n}")) & 8 == 0
    }
    fn child_count(&self) -> usize {
        self.kids.len()
    }
    fn get_child_mut(&mut self, n: usize) -> Option<&mut (dyn Widget<M> + '_)> {
        self.kids.get_mut(n).map(|k| k.as_mut() as _)
    }
    fn handle_message(&mut self, e: &mut MessageEnvelope<M>) -> Option<M> {
        let v = self.heard(format!("handle_message from {:?} {}", e.sender_id, e.sender_type));
        if v & 16 == 0 {
            e.stop();
        }
        (v & 8 == 0).then(|| (self.message)(v))
    }
    fn id(&self) -> Option<&str> {
        self.id.as_deref()
    }
    fn set_border_title(&mut self, t: &str) {
        self.heard(format!("set_border_title {t}"));
        self.title = Some(t.into());
    }
    fn set_border_subtitle(&mut self, t: &str) {
        self.heard(format!("set_border_subtitle {t}"));
        self.title = None;
    }
    fn border_title(&self) -> Option<&str> {
        self.title.as_deref()
    }
    fn border_subtitle(&self) -> Option<&str> {
        if self.title.is_some() { None } else { self.id.as_deref() }
    }
    fn add_class(&mut self, c: &str) {
        self.heard(format!("add_class {c}"));
    }
    fn remove_class(&mut self, c: &str) {
        self.heard(format!("remove_class {c}"));
    }
    fn has_class(&self, c: &str) -> bool {
        self.yes(&format!("has_class {c}"))
    }
    fn set_classes(&mut self, c: &str) {
        self.heard(format!("set_classes {c}"));
    }
    fn classes(&self) -> Vec<String> {
        self.text("classes").into_iter().collect()
    }
}

struct Wrapper<M: 'static> {
    inner: Subject<M>,
}
textual::impl_widget_delegation!(Wrapper<M> => inner);

struct Renamed<M: 'static> {
    base: Subject<M>,
}
textual::impl_widget_delegation!(Renamed<M> => base, type_name = "Other");

struct Styled<M: 'static> {
    base: Subject<M>,
}
textual::impl_widget_delegation!(Styled<M> => base, type_name = "Styled", default_css = |_| "Styled { color: blue; }");

struct Nothing;
impl Layout for Nothing {
    fn arrange(&mut self, _: &ComputedStyle, _: &[textual::layouts::LayoutChild], _: Region, _: textual::layouts::Viewport) -> Vec<textual::layouts::WidgetPlacement> {
        vec![]
    }
}

/// Tell the widget something or ask it something; what it says.
fn call(g: &mut G, w: &mut dyn Widget<u64>) -> (String, String) {
    let region = Region::new(g.i32(0, 5), g.i32(0, 5), g.i32(1, 9), g.i32(1, 9));
    let size = Size { width: g.u16(1, 90), height: g.u16(1, 40) };
    let yes = g.bool();
    let (x, y) = (g.u16(0, 9), g.u16(0, 9));
    let event = mouse_event(*g.of(&[MouseEventKind::Moved, MouseEventKind::Down(MouseButton::Left), MouseEventKind::ScrollDown]), x, y);
    let word = *g.of(&["a", "b c", ""]);
    let mut style = ComputedStyle::default();
    style.color = Some(RgbaColor::rgb(x as u8, y as u8, 9));
    let mut over = StyleOverride::new();
    over.color = style.color.clone();
    macro_rules! ops {
        ($($name:ident => $e:expr;)*) => {{
            const NAMES: &[&str] = &[$(stringify!($name)),*];
            let n = g.usize(0, NAMES.len() - 1);
            let mut i = 0;
            $( if i == n { return (stringify!($name).to_string(), format!("{:?}", $e)); } i += 1; )*
            let _ = i;
            unreachable!()
        }};
    }
    ops! {
        render => { let mut c = Canvas::new(16, 16); w.render(&mut c, region); crate::c11_canvas::canvas_cells(&c).iter().map(|m| format!("{m:?}")).collect::<Vec<_>>() };
        desired_size => w.desired_size();
        intrinsic_height_for_width => w.intrinsic_height_for_width(size.width);
        content_height_for_scroll => w.content_height_for_scroll(size.width, size.height);
        content_width_for_scroll => w.content_width_for_scroll(size.width);
        for_each_child => { let mut ids = vec![]; w.for_each_child(&mut |k| ids.push(k.id().map(String::from))); ids };
        on_resize => w.on_resize(size);
        get_state => w.get_state();
        get_meta => { let m = w.get_meta(); (m.id, m.classes, m.states) };
        set_style => w.set_style(style);
        get_style => w.get_style().color;
        set_inline_style => w.set_inline_style(over);
        inline_style => w.inline_style().map(|s| s.color.clone());
        clear_inline_style => w.clear_inline_style();
        tooltip => w.tooltip();
        set_tooltip => w.set_tooltip(yes.then(|| word.to_string()));
        pre_layout => w.pre_layout(&mut Nothing);
        set_focus => w.set_focus(yes);
        is_focused => w.is_focused();
        is_dirty => w.is_dirty();
        mark_dirty => w.mark_dirty();
        mark_clean => w.mark_clean();
        on_event => w.on_event(if yes { KeyCode::Enter } else { KeyCode::Char('x') });
        on_mouse => w.on_mouse(event, region);
        on_mouse_with_sender => w.on_mouse_with_sender(event, region).map(|(m, s)| (m, s.id, s.type_name));
        blocks_mouse_events => w.blocks_mouse_events();
        set_hover => w.set_hover(yes);
        set_active => w.set_active(yes);
        clear_hover => w.clear_hover();
        take_pending_action => w.take_pending_action();
        is_focusable => w.is_focusable();
        is_visible => w.is_visible();
        participates_in_layout => w.participates_in_layout();
        set_visible => w.set_visible(yes);
        is_loading => w.is_loading();
        set_loading => w.set_loading(yes);
        is_disabled => w.is_disabled();
        set_disabled => w.set_disabled(yes);
        count_focusable => w.count_focusable();
        clear_focus => w.clear_focus();
        focus_nth => w.focus_nth(x as usize);
        child_count => w.child_count();
        get_child_mut => w.get_child_mut(x as usize % 4).map(|k| k.id().map(String::from));
        handle_message => { let mut e = MessageEnvelope::new(7u64, yes.then_some("from"), "Kind"); let m = w.handle_message(&mut e); (m, e.message, e.is_bubbling()) };
        id => w.id().map(String::from);
        sender_id => w.sender_info().id;
        set_border_title => w.set_border_title(word);
        set_border_subtitle => w.set_border_subtitle(word);
        border_title => w.border_title().map(String::from);
        border_subtitle => w.border_subtitle().map(String::from);
        add_class => w.add_class(word);
        remove_class => w.remove_class(word);
        toggle_class => w.toggle_class(word);
        has_class => w.has_class(word);
        set_class => w.set_class(yes, word);
        set_classes => w.set_classes(word);
        classes => w.classes();
    }
}

/// A wrapper made by `impl_widget_delegation!`, or a boxed widget, against the widget itself.
fn wrap(g: &mut G) -> R {
    let seed = g.below(1 << 30);
    let id = g.bool().then(|| "me".to_string());
    let kids = g.usize(0, 3);
    let subject = |log: &Rc<RefCell<Vec<String>>>| -> Subject<u64> {
        let kid = |n: usize| Box::new(Subject { seed: seed + 1, log: Default::default(), id: Some(format!("kid{n}")), title: None, inline: None, kids: vec![], message: |v| v }) as Box<dyn Widget<u64>>;
        Subject { seed, log: log.clone(), id: id.clone(), title: None, inline: None, kids: (0..kids).map(kid).collect(), message: |v| v }
    };
    let (direct, wrapped): (Rc<RefCell<Vec<String>>>, Rc<RefCell<Vec<String>>>) = Default::default();
    let mut plain = subject(&direct);
    let inner = subject(&wrapped);
    let kind = g.usize(0, 3);
    let (mut other, name, css): (Box<dyn Widget<u64>>, &str, &str) = match kind {
        0 => (Box::new(Wrapper { inner }), "Wrapper", "Subject { color: red; }"),
        1 => (Box::new(Renamed { base: inner }), "Other", "Subject { color: red; }"),
        2 => (Box::new(Styled { base: inner }), "Styled", "Styled { color: blue; }"),
        _ => (Box::new(Box::new(inner) as Box<dyn Widget<u64>>), "Subject", "Subject { color: red; }"),
    };
    g.note(|| format!("a widget as {name}, with {kids} children, id {id:?}"));
    let m = other.get_meta();
    ensure_eq!((m.type_name, m.type_names.first().copied(), other.type_name()), (name, Some(name), name), "type name of the wrapper");
    ensure_eq!(other.default_css(), css, "default style sheet of the wrapper");
    let mut told = 0;
    for _ in 0..g.usize(1, 30) {
        let which = g.below(1 << 40);
        let (op, want) = call(&mut G::derived(which), &mut plain);
        let (_, got) = call(&mut G::derived(which), other.as_mut());
        g.note(|| format!("{op}: {want}"));
        ensure_eq!(got, want, "answer of the wrapped widget to {op}");
        ensure_eq!(&*wrapped.borrow(), &*direct.borrow(), "what the wrapped widget was told, after {op}");
        told = direct.borrow().len();
    }
    g.nontrivial_if(told >= 3);
    Ok(())
}

pub static P32: Property = Property {
    id: "C32",
    rule: "programs with named arguments (build), of three or more mistakes (refuse), at least three calls that reach the wrapped widget (wrap)",
    assumptions: &["the ui! and widget! macros are compiled over stand-in widgets of up to two arguments; expressions are from a grammar of literals, paths, calls, closures, blocks, macros and struct literals", "wrapping is judged call by call on a widget that notes what it is told"],
    parts: &[
        Part { name: "build", quick: 240, thorough: 8_000, f: build },
        Part { name: "refuse", quick: 60, thorough: 1_000, f: refuse },
        Part { name: "wrap", quick: 100_000, thorough: 3_000_000, f: wrap },
    ],
};
