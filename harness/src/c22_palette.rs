//! C22: the command palette. Fuzzy matching against exhaustive alignment; the palette itself through the real event
//! loop on a paused clock, with providers that take their time, judged by what the terminal shows and what the
//! application is told.
use crate::c11_canvas::{Glyph, Term};
use crate::common::{rand_case, word};
use crate::engine::{Fail, G, Part, Property, R};
use crate::{ensure, ensure_eq, fail};
use async_trait::async_trait;
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use textual::fuzzy::{FuzzySearch, Matcher};
use textual::{
    App, CommandPaletteEvent, DiscoveryHit, EventContext, Hit, MessageEnvelope, Provider, SimpleCommand, SimpleProvider, Static, SystemCommand, SystemCommandsProvider, Widget,
};
use tokio::sync::mpsc;
use tokio::time::Instant;

// ------------------------------------------------------------------------------------------------ fuzzy matching

fn fold(c: char) -> char {
    let l: Vec<char> = c.to_lowercase().collect();
    if let [l] = l[..] { l } else { c }
}

const LETTERS: &[char] = &['a', 'b', 'c', 'A', 'B', '_', ' ', '-', '1', '[', ']', '\\', '/', 'é', 'É', 'Σ', 'ς', 'İ', 'ß', '界', '😀', '.'];

fn phrase(g: &mut G, max: usize) -> String {
    let few = g.usize(2, LETTERS.len() - 1);
    let from = g.usize(0, LETTERS.len() - few);
    (0..g.usize(1, max)).map(|_| *g.of(&LETTERS[from..from + few])).collect()
}

fn score(cand: &[char], at: &[usize]) -> f64 {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let starts = at.iter().filter(|&&i| word(cand[i]) && (i == 0 || !word(cand[i - 1]))).count() as f64;
    let n = at.len() as f64;
    let groups = 1 + at.windows(2).filter(|w| w[1] != w[0] + 1).count();
    let share = (n - (groups - 1) as f64) / n;
    (n + starts) * (1.0 + share * share)
}

/// The best score over every way to place the query in the candidate, by trying them all.
fn best(q: &[char], c: &[char]) -> Option<f64> {
    fn go(q: &[char], c: &[char], from: usize, at: &mut Vec<usize>, best: &mut Option<f64>) {
        if at.len() == q.len() {
            let s = score(c, at);
            *best = Some(best.map_or(s, |b: f64| b.max(s)));
            return;
        }
        for i in from..c.len() {
            if c[i] == q[at.len()] {
                at.push(i);
                go(q, c, i + 1, at, best);
                at.pop();
            }
        }
    }
    let mut b = None;
    go(q, c, 0, &mut vec![], &mut b);
    b
}

fn near(a: f32, b: f64) -> bool {
    (a as f64 - b).abs() <= 1e-3 * (1.0 + b)
}

/// What the matcher has to say about `query` and `candidate`: the score (0 for no match).
fn want_score(query: &str, candidate: &str, sensitive: bool) -> f64 {
    let f = |s: &str| -> Vec<char> { s.chars().map(|c| if sensitive { c } else { fold(c) }).collect() };
    let (q, c) = (f(query), f(candidate));
    if q.is_empty() || c.is_empty() {
        return 0.0;
    }
    if let Some(i) = (0..=c.len().saturating_sub(q.len())).find(|&i| c[i..].starts_with(&q)) {
        let at: Vec<usize> = (i..i + q.len()).collect();
        return score(&c, &at) * if q == c { 2.0 } else { 1.5 };
    }
    best(&q, &c).unwrap_or(0.0)
}

fn fuzzy(g: &mut G) -> R {
    let sensitive = g.chance(1, 4);
    let candidate = if g.chance(1, 3) { word(g, 8) } else { phrase(g, 12) };
    let query: String = if g.chance(2, 3) && !candidate.is_empty() {
        // letters of the candidate in order, perhaps spoilt
        let mut q: Vec<char> = candidate.chars().filter(|_| g.chance(1, 2)).collect();
        q.truncate(6);
        if g.chance(1, 4) && !q.is_empty() {
            let i = g.usize(0, q.len() - 1);
            let j = g.usize(0, q.len() - 1);
            q.swap(i, j);
        }
        let q: String = q.into_iter().collect();
        if g.bool() { rand_case(g, &q) } else { q }
    } else {
        phrase(g, 5)
    };
    let want = want_score(&query, &candidate, sensitive);
    judge(g, query, candidate, sensitive, want)
}

/// The milliseconds this thread has been running.
fn cpu_ms() -> u64 {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split(' ').next().and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) / 1_000_000
}

/// The best score over every way to place the query in the candidate, from the best ways to
/// place each of its beginnings: by the place of the last letter and the number of groups, the
/// most word starts.
fn best_by_prefix(q: &[char], c: &[char]) -> Option<f64> {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let start = |i: usize| usize::from(word(c[i]) && (i == 0 || !word(c[i - 1])));
    let mut ways: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for (n, l) in q.iter().enumerate() {
        let mut next: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for i in (0..c.len()).filter(|&i| c[i] == *l) {
            if n == 0 {
                next.insert((i, 1), start(i));
            }
            for (&(last, groups), &starts) in ways.range(..(i, 0)) {
                let e = next.entry((i, groups + usize::from(last + 1 != i))).or_insert(0);
                *e = (*e).max(starts + start(i));
            }
        }
        ways = next;
    }
    let n = q.len() as f64;
    ways.iter()
        .map(|(&(_, groups), &starts)| {
            let share = (n - (groups - 1) as f64) / n;
            (n + starts as f64) * (1.0 + share * share)
        })
        .max_by(f64::total_cmp)
}

/// In how many ways the query can be placed in the candidate.
fn ways(q: &[char], c: &[char]) -> f64 {
    let mut ways = vec![0.0; q.len() + 1];
    ways[0] = 1.0;
    for l in c {
        for n in (0..q.len()).rev() {
            if q[n] == *l {
                ways[n + 1] += ways[n];
            }
        }
    }
    ways[q.len()]
}

/// Long names and queries of few letters, which can be placed in very many ways.
fn repeats(g: &mut G) -> R {
    let few = *g.of(&[&['a', ' '][..], &['a', 'b', ' '], &['a', '-', 'A', 'b', '_'], &['é', 'x', ' ', '.', 'É']]);
    let len = g.usize(8, 56);
    let candidate: String = (0..len).map(|i| if i % 2 == 1 && g.chance(1, 2) { few[few.len() - 1] } else { *g.of(few) }).collect();
    let take = g.usize(2, 6) as u64;
    let mut q: Vec<char> = candidate.chars().filter(|_| g.chance(take, 8)).collect();
    q.truncate(g.usize(4, 24));
    let f = |s: &str| -> Vec<char> { s.chars().map(fold).collect() };
    let c = f(&candidate);
    // two million ways are enough to show a search that tries each, and do not fill the memory
    let folded = |q: &[char]| -> Vec<char> { q.iter().map(|&l| fold(l)).collect() };
    while ways(&folded(&q), &c) > 2e6 {
        q.pop();
    }
    g.label_if(ways(&folded(&q), &c) > 5e5, "more than 500000 ways");
    let query: String = q.into_iter().collect();
    let q = f(&query);
    let want = if q.is_empty() || (0..=c.len() - q.len()).any(|i| c[i..].starts_with(&q)) { want_score(&query, &candidate, false) } else { best_by_prefix(&q, &c).unwrap_or(0.0) };
    judge(g, query, candidate, false, want)
}

fn judge(g: &mut G, query: String, candidate: String, sensitive: bool, want: f64) -> R {
    g.key(&(&query, &candidate, sensitive));
    g.note(|| format!("query {query:?} candidate {candidate:?} case sensitive {sensitive}"));
    let f = |s: &str| -> Vec<char> { s.chars().map(|c| if sensitive { c } else { fold(c) }).collect() };
    let (q, c) = (f(&query), f(&candidate));
    let spent = cpu_ms();
    let (s, at) = FuzzySearch::new(sensitive).match_candidate(&query, &candidate);
    let spent = cpu_ms() - spent;
    ensure!(spent < 500, "matching took {spent} ms of this thread's time");
    ensure!((s > 0.0) == (want > 0.0), "score {s}, best alignment {want}");
    ensure!(near(s, want), "score {s}, best alignment {want}");
    g.nontrivial_if(want > 0.0 && q.len() > 1 && at.windows(2).any(|w| w[1] != w[0] + 1));
    if s > 0.0 {
        ensure_eq!(at.len(), q.len(), "one position per letter of the query, got {at:?}");
        ensure!(at.windows(2).all(|w| w[0] < w[1]), "positions {at:?} do not increase");
        ensure!(at.iter().zip(&q).all(|(&i, l)| c.get(i) == Some(l)), "positions {at:?} are not those of the query's letters");
        let whole = at.windows(2).all(|w| w[1] == w[0] + 1);
        let again = score(&c, &at) * if q == c { 2.0 } else if whole { 1.5 } else { 1.0 };
        ensure!(near(s, again), "score {s} but the positions {at:?} make {again}");
    } else {
        ensure!(at.is_empty(), "no match but positions {at:?}");
    }
    // highlighting
    let style = *g.of(&["reverse", "bold underline", "", "bold"]);
    let m = Matcher::new(query.clone(), (style != "reverse").then(|| style.to_string()), sensitive);
    ensure_eq!(m.match_score(&candidate), s, "Matcher and FuzzySearch disagree");
    let shown = m.highlight(&candidate);
    let p = match rich::ParsedMarkup::parse(&shown) {
        Ok(p) => p,
        Err(e) => fail!("highlight {shown:?} is not markup: {e}"),
    };
    ensure_eq!(p.text(), candidate, "the text that highlight {shown:?} shows");
    for (i, (byte, ch)) in candidate.char_indices().enumerate() {
        let st = p.style_at(byte).text;
        let want = at.contains(&i) && !ch.is_whitespace();
        let got = [st.reverse, st.bold, st.underline];
        let on = match style {
            "reverse" => [want, false, false],
            "bold underline" => [false, want, want],
            "bold" => [false, want, false],
            _ => [false; 3],
        };
        ensure_eq!(got, on, "reverse, bold, underline of character {i} of {candidate:?} with {at:?} matched, shown as {shown:?}");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ providers of the crate

fn providers(g: &mut G) -> R {
    let names = g.vec(0, 6, |g| phrase(g, 9));
    let cmds: Vec<(String, String, Option<String>, bool)> = names.into_iter().enumerate().map(|(i, n)| (n, format!("act{i}"), g.chance(1, 2).then(|| phrase(g, 6)), g.chance(3, 4))).collect();
    let query = phrase(g, 3);
    let system = g.bool();
    g.key(&(&cmds, &query, system));
    g.note(|| format!("query {query:?} system {system} commands {cmds:?}"));
    let mut p: Box<dyn Provider> = if system {
        Box::new(SystemCommandsProvider::new(
            cmds.iter().map(|(n, a, h, d)| {
                let c = SystemCommand::new(n.clone(), a.clone()).discoverable(*d);
                if let Some(h) = h { c.with_help(h.clone()) } else { c }
            }).collect(),
        ))
    } else {
        Box::new(SimpleProvider::new(
            cmds.iter().map(|(n, a, h, d)| {
                let c = SimpleCommand::new(n.clone(), a.clone()).discoverable(*d);
                if let Some(h) = h { c.with_help(h.clone()) } else { c }
            }).collect(),
        ))
    };
    p.set_match_style("bold".into());
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let (hits, found) = rt.block_on(async { (p.search(&query).await, p.discover().await) });
    let got: Vec<_> = hits.iter().map(|h| (h.text.clone(), h.action.clone(), h.help.clone())).collect();
    let want: Vec<_> = cmds.iter().filter(|c| want_score(&query, &c.0, false) > 0.0).map(|c| (c.0.clone(), c.1.clone(), c.2.clone())).collect();
    g.nontrivial_if(!want.is_empty() && want.len() < cmds.len());
    ensure_eq!(got, want, "commands found for {query:?}");
    for h in &hits {
        let w = want_score(&query, &h.text, false);
        ensure!(near(h.score, w), "score {} of {:?}, want {w}", h.score, h.text);
        let p = rich::ParsedMarkup::parse(&h.match_display).map_err(|e| Fail(format!("{:?} is not markup: {e}", h.match_display)))?;
        ensure_eq!(p.text(), h.text, "what a hit shows");
        let bold: String = h.text.char_indices().filter(|(b, _)| p.style_at(*b).text.bold).map(|(_, c)| fold(c)).collect();
        let q: String = query.chars().filter(|c| !c.is_whitespace()).map(fold).collect();
        ensure_eq!(bold, q, "letters highlighted in {:?}", h.text);
    }
    let mut want: Vec<_> = cmds.iter().filter(|c| c.3).map(|c| (c.0.clone(), c.1.clone(), c.2.clone())).collect();
    if system {
        want.sort_by(|a, b| a.0.cmp(&b.0));
    }
    let got: Vec<_> = found.iter().map(|h| (h.text.clone(), h.action.clone(), h.help.clone())).collect();
    ensure_eq!(got, want, "commands offered before anything is typed");
    for h in &found {
        let p = rich::ParsedMarkup::parse(&h.display).map_err(|e| Fail(format!("{:?} is not markup: {e}", h.display)))?;
        ensure_eq!(p.text(), h.text, "what an offer shows");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ the palette

const W: u16 = 60;
const H: u16 = 44;

#[derive(Clone, Debug, PartialEq)]
struct Cmd {
    name: String,
    action: String,
    help: Option<String>,
    discover: bool,
    score: f32,
}

#[derive(Clone, Debug)]
struct Prov {
    /// None: a SimpleProvider (which answers at once)
    delay: Option<u64>,
    startup: u64,
    cmds: Vec<Cmd>,
}

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Startup,
    Search(String),
    Discover,
    Shutdown,
}

type Calls = Arc<Mutex<Vec<(usize, Call)>>>;

struct Slow {
    n: usize,
    p: Prov,
    calls: Calls,
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('[', "\\[").replace(']', "\\]")
}

impl Slow {
    fn log(&self, c: Call) {
        self.calls.lock().unwrap().push((self.n, c));
    }
    async fn think(&self) {
        tokio::time::sleep(Duration::from_millis(self.p.delay.unwrap())).await;
    }
}

#[async_trait]
impl Provider for Slow {
    async fn startup(&mut self) {
        self.log(Call::Startup);
        if self.p.startup > 0 {
            tokio::time::sleep(Duration::from_millis(self.p.startup)).await;
        }
    }
    async fn search(&mut self, query: &str) -> Vec<Hit> {
        self.log(Call::Search(query.into()));
        self.think().await;
        found(&self.p, query)
            .into_iter()
            .map(|(score, c)| Hit { score, match_display: format!("[bold]{}[/]", esc(&c.name)), action: c.action, text: c.name, help: c.help })
            .collect()
    }
    async fn discover(&mut self) -> Vec<DiscoveryHit> {
        self.log(Call::Discover);
        self.think().await;
        found(&self.p, "").into_iter().map(|(_, c)| DiscoveryHit { display: esc(&c.name), action: c.action, text: c.name, help: c.help }).collect()
    }
    async fn shutdown(&mut self) {
        self.log(Call::Shutdown);
    }
}

/// What a provider has to say about a query.
fn found(p: &Prov, query: &str) -> Vec<(f32, Cmd)> {
    p.cmds
        .iter()
        .filter_map(|c| {
            if query.is_empty() {
                return c.discover.then(|| (0.0, c.clone()));
            }
            if p.delay.is_some() {
                return c.name.contains(query).then(|| (c.score, c.clone()));
            }
            let s = want_score(query, &c.name, false);
            (s > 0.0).then(|| (s as f32, c.clone()))
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Told {
    Key(KeyCode),
    Spot(usize, char),
    Action(String),
    Opened,
    Closed(bool),
    Lit(usize, String, String, Option<String>),
}

/// A focusable cell that reports the letters it is given.
struct Spot {
    n: usize,
    id: String,
    focused: bool,
    dirty: bool,
    style: tcss::ComputedStyle,
}

impl Widget<(usize, char)> for Spot {
    fn render(&self, c: &mut textual::Canvas, r: textual::Region) {
        for x in 0..r.width {
            c.put_char(r.x + x, r.y, if self.focused { '#' } else { '-' }, self.style.color.clone(), self.style.background.clone(), Default::default());
        }
    }
    fn desired_size(&self) -> textual::Size {
        textual::Size::new(4, 1)
    }
    fn get_meta(&self) -> tcss::WidgetMeta {
        tcss::WidgetMeta { type_name: "Spot", type_names: vec!["Spot", "Widget"], id: Some(self.id.clone()), classes: vec![], states: self.get_state() }
    }
    fn get_state(&self) -> tcss::WidgetStates {
        if self.focused { tcss::WidgetStates::FOCUS } else { tcss::WidgetStates::empty() }
    }
    fn set_style(&mut self, s: tcss::ComputedStyle) {
        self.style = s;
    }
    fn get_style(&self) -> tcss::ComputedStyle {
        self.style.clone()
    }
    fn is_dirty(&self) -> bool {
        self.dirty
    }
    fn mark_dirty(&mut self) {
        self.dirty = true;
    }
    fn mark_clean(&mut self) {
        self.dirty = false;
    }
    fn is_focusable(&self) -> bool {
        true
    }
    fn set_focus(&mut self, f: bool) {
        self.dirty |= f != self.focused;
        self.focused = f;
    }
    fn is_focused(&self) -> bool {
        self.focused
    }
    fn id(&self) -> Option<&str> {
        Some(&self.id)
    }
    fn type_name(&self) -> &'static str {
        "Spot"
    }
    fn on_event(&mut self, k: KeyCode) -> Option<(usize, char)> {
        if let KeyCode::Char(c) = k { Some((self.n, c)) } else { None }
    }
    fn on_mouse(&mut self, e: MouseEvent, r: textual::Region) -> Option<(usize, char)> {
        let inside = r.contains_point(e.column as i32, e.row as i32);
        (inside && matches!(e.kind, MouseEventKind::Down(_))).then_some((self.n, '!'))
    }
}

struct Paletted {
    provs: Rc<Vec<Prov>>,
    calls: Calls,
    opened: RefCell<usize>,
    log: Rc<RefCell<Vec<Told>>>,
    spots: usize,
    quit: bool,
}

impl App for Paletted {
    type Message = (usize, char);
    const CSS: &'static str = "Screen { background: #102030; } Spot { width: 6; height: 1; color: #ddeeff; } #out { width: 20; height: 1; }";
    fn compose(&self) -> Vec<Box<dyn Widget<Self::Message>>> {
        let mut v: Vec<Box<dyn Widget<Self::Message>>> = vec![Box::new(Static::new("0 actions").with_id("out"))];
        v.extend((0..self.spots).map(|n| Box::new(Spot { n, id: format!("s{n}"), focused: false, dirty: true, style: Default::default() }) as Box<dyn Widget<Self::Message>>));
        v
    }
    fn command_providers(&self) -> Vec<Box<dyn Provider>> {
        let mut opened = self.opened.borrow_mut();
        *opened += 1;
        self.provs
            .iter()
            .enumerate()
            .map(|(i, p)| -> Box<dyn Provider> {
                if p.delay.is_some() {
                    Box::new(Slow { n: *opened * 10 + i, p: p.clone(), calls: self.calls.clone() })
                } else {
                    Box::new(SimpleProvider::new(
                        p.cmds
                            .iter()
                            .map(|c| {
                                let s = SimpleCommand::new(c.name.clone(), c.action.clone()).discoverable(c.discover);
                                if let Some(h) = &c.help { s.with_help(h.clone()) } else { s }
                            })
                            .collect(),
                    ))
                }
            })
            .collect()
    }
    fn on_command_palette_event(&mut self, e: CommandPaletteEvent, _: &mut EventContext<Self::Message>) {
        self.log.borrow_mut().push(match e {
            CommandPaletteEvent::Opened => Told::Opened,
            CommandPaletteEvent::Closed { option_selected } => Told::Closed(option_selected),
            CommandPaletteEvent::OptionHighlighted(h) => Told::Lit(h.index, h.text, h.action, h.help),
        });
    }
    fn handle_message(&mut self, e: MessageEnvelope<Self::Message>, _: &mut EventContext<Self::Message>) {
        self.log.borrow_mut().push(Told::Spot(e.message.0, e.message.1));
    }
    fn on_key(&mut self, key: KeyCode, _: &mut EventContext<Self::Message>) {
        self.log.borrow_mut().push(Told::Key(key));
    }
    fn on_action(&mut self, action: &str, ctx: &mut EventContext<Self::Message>) -> bool {
        if action == "app.command_palette" {
            return false;
        }
        self.log.borrow_mut().push(Told::Action(action.into()));
        let n = self.log.borrow().iter().filter(|t| matches!(t, Told::Action(_))).count();
        ctx.query_one_as::<Static<Self::Message>, _, _>("#out", |s| s.update(format!("{n} actions")));
        if let Some(id) = action.strip_prefix("focus ") {
            ctx.focus_by_id(id);
        }
        action != "quit"
    }
    fn should_quit(&self) -> bool {
        self.quit
    }
    fn request_quit(&mut self) {
        self.quit = true;
    }
    fn reset_quit(&mut self) {
        self.quit = false;
    }
}

const SPINNER: &str = "⠋⠙⠹⠸⠼⠴⠦⠧⠇⠏";
const NONE: &str = "No matches found";

/// What a user sees of the palette.
#[derive(Debug, Clone, PartialEq, Default)]
struct Seen {
    query: String,
    /// the text rows of the list, with their row on the screen and whether they are highlighted
    rows: Vec<(usize, String, bool)>,
    spinner: bool,
}

fn text_rows(t: &Term) -> Vec<String> {
    t.cells
        .chunks(t.w)
        .map(|r| r.iter().map(|c| match &c.glyph { Glyph::Lead(s) => s.as_str(), Glyph::Cont => "" }).collect::<String>().trim_end().to_string())
        .collect()
}

fn look(t: &Term) -> Option<Seen> {
    let rows = text_rows(t);
    let top = rows.iter().position(|r| r.contains('🔎'))?;
    let query = rows[top].split('🔎').nth(1).unwrap_or("").trim().to_string();
    let mut seen = Seen { query, ..Default::default() };
    let plain = t.cells[(top + 2) * t.w + 1].bg;
    for (y, r) in rows.iter().enumerate().skip(top + 1) {
        let text = r.trim();
        if text.is_empty() || text.chars().all(|c| "▁▔─".contains(c)) {
            continue;
        }
        if text.chars().all(|c| SPINNER.contains(c)) {
            seen.spinner = true;
            continue;
        }
        let x = r.len() - r.trim_start().len();
        seen.rows.push((y, text.to_string(), t.cells[y * t.w + x].bg != plain));
    }
    Some(seen)
}

/// The entries on the screen: index into `all`, highlighted, first row, number of rows.
fn entries(seen: &Seen, all: &[Cmd]) -> Result<Vec<(usize, bool, usize, usize)>, Fail> {
    let mut out: Vec<(usize, bool, usize, usize)> = vec![];
    let mut i = 0;
    while i < seen.rows.len() {
        let (y, text, lit) = &seen.rows[i];
        let Some(n) = all.iter().position(|c| c.name == *text) else { fail!("{text:?} in the list is no command, in {seen:?}") };
        let mut height = 1;
        if let Some(h) = &all[n].help {
            let ok = seen.rows.get(i + 1).is_some_and(|r| r.1 == *h && r.0 == y + 1 && r.2 == *lit);
            ensure!(ok, "no help {h:?} under {text:?}, in {seen:?}");
            height = 2;
        }
        if let Some(l) = out.last() {
            ensure!(l.2 + l.3 == *y, "a gap in the list before {text:?}, in {seen:?}");
        }
        ensure!(!out.iter().any(|o| o.0 == n), "{text:?} is listed twice, in {seen:?}");
        out.push((n, *lit, *y, height));
        i += height;
    }
    Ok(out)
}

fn gen_provs(g: &mut G) -> Vec<Prov> {
    let mut taken: Vec<String> = vec![];
    let mut simple = false;
    let n = g.weighted(&[1, 6, 6, 3]);
    (0..n)
        .map(|i| {
            let slow = simple || g.chance(2, 3);
            simple |= !slow;
            let delay = slow.then(|| {
                i as u64 + 1
                    + 10 * match g.weighted(&[4, 4, 3, 2]) {
                        0 => g.below(6),
                        1 => g.below(50),
                        2 => 40 + g.below(15),
                        _ => 60 + g.below(100),
                    }
            });
            let startup = if slow && g.chance(1, 4) { 10 * g.below(60) } else { 0 };
            let cmds = (0..g.usize(0, 5))
                .map(|k| {
                    let mut name = String::new();
                    for _ in 0..g.usize(1, 6) {
                        name.push(*g.of(&['a', 'b', 'c', 'd', '[', ']', '\\', '-']));
                    }
                    if g.chance(1, 3) {
                        name.push(' ');
                    }
                    name.push(char::from(b'0' + (i * 5 + k) as u8 % 10));
                    if taken.contains(&name) {
                        name.push_str(&format!("{i}{k}"));
                    }
                    taken.push(name.clone());
                    let action = match g.weighted(&[6, 3, 1, 1]) {
                        0 => format!("act{i}{k}"),
                        1 => format!("focus s{}", g.below(2)),
                        2 => "app.command_palette".to_string(),
                        _ => "quit".to_string(),
                    };
                    Cmd { name, action, help: g.chance(1, 2).then(|| format!("help {i}{k} {}", if g.bool() { "[x]" } else { "of it" })), discover: g.chance(3, 4), score: *g.of(&[0.5, 1.0, 1.0, 2.5]) }
                })
                .collect();
            Prov { delay, startup, cmds }
        })
        .collect()
}

struct Open {
    query: Vec<char>,
    cursor: usize,
    opened: u64,
    searched: u64,
    /// what the list showed when the query was last changed
    stale: Vec<usize>,
    moved: bool,
    focus: usize,
    before: Vec<crate::c11_canvas::MCell>,
    session: usize,
}

impl Open {
    fn trimmed(&self) -> String {
        self.query.iter().collect::<String>().trim().to_string()
    }
    fn done(&self, p: &Prov) -> u64 {
        match p.delay {
            Some(d) => (self.opened + p.startup).max(self.searched) + d,
            None => self.searched,
        }
    }
}

fn session(g: &mut G) -> R {
    let provs = Rc::new(gen_provs(g));
    let all: Vec<Cmd> = provs.iter().flat_map(|p| p.cmds.clone()).collect();
    g.note(|| provs.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join("\n"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        textual::vp_hooks::capture_output();
        let (etx, erx) = mpsc::unbounded_channel();
        textual::vp_hooks::set_terminal((W, H), erx);
        let log: Rc<RefCell<Vec<Told>>> = Rc::default();
        let calls: Calls = Default::default();
        let spots = 2;
        let mut app = Paletted { provs: provs.clone(), calls: calls.clone(), opened: RefCell::new(0), log: log.clone(), spots, quit: false };
        let t0 = Instant::now();
        let mut quit = false;
        let driver = async {
            let mut term = Term::new(W as usize, H as usize, "?");
            let mut t = 15u64; // never when the palette ticks
            tokio::time::sleep_until(t0 + Duration::from_millis(t)).await;
            term.feed(&textual::vp_hooks::take_output())?;
            let mut focus = 0usize;
            let mut open: Option<Open> = None;
            let mut sessions = 0;
            let mut retired: Vec<(usize, u64)> = vec![];
            let (mut ran, mut changed, mut settled) = (0, 0, 0);
            let send = |e: Event| {
                let _ = etx.send(Ok(e));
            };
            let key = |k: KeyCode, m: KeyModifiers| Event::Key(KeyEvent::new(k, m));
            let plain = KeyModifiers::NONE;
            let mouse = |kind: MouseEventKind, x: usize, y: usize| Event::Mouse(MouseEvent { kind, column: x as u16, row: y as u16, modifiers: plain });
            for _ in 0..g.usize(3, 22) {
                let from = log.borrow().len();
                let seen = look(&term);
                let list = match &seen {
                    Some(s) if !s.rows.iter().any(|r| r.1 == NONE) => entries(s, &all)?,
                    _ => vec![],
                };
                let lit = list.iter().position(|e| e.1);
                let fresh = |log: &Rc<RefCell<Vec<Told>>>| -> Vec<Told> { log.borrow()[from..].to_vec() };
                // ---- do something
                let mut close: Option<bool> = None;
                let mut run: Option<usize> = None;
                let mut expect_first_lit: Option<usize> = None;
                if let Some(o) = &mut open {
                    let shown: Vec<usize> = list.iter().map(|e| e.0).collect();
                    let mut edited = false;
                    match g.weighted(&[8, 3, 2, 2, 5, 3, 4, 2, 1, 3, 2, 1]) {
                        0 => {
                            let c = *g.of(&['a', 'b', 'c', 'd', '[', ' ', '0', '1', 'x']);
                            g.note(|| format!("{t}: type {c:?}"));
                            o.query.insert(o.cursor, c);
                            o.cursor += 1;
                            edited = true;
                            send(key(KeyCode::Char(c), plain));
                        }
                        1 => {
                            g.note(|| format!("{t}: backspace"));
                            if o.cursor > 0 {
                                o.cursor -= 1;
                                o.query.remove(o.cursor);
                                edited = true;
                            }
                            send(key(KeyCode::Backspace, plain));
                        }
                        2 => {
                            g.note(|| format!("{t}: left"));
                            o.cursor = o.cursor.saturating_sub(1);
                            send(key(KeyCode::Left, plain));
                        }
                        3 => {
                            let k = *g.of(&[KeyCode::Tab, KeyCode::BackTab, KeyCode::F(3)]);
                            g.note(|| format!("{t}: {k:?}"));
                            send(key(k, plain));
                        }
                        4 => {
                            g.note(|| format!("{t}: down, {lit:?} of {} lit", list.len()));
                            if let Some(l) = lit {
                                o.moved = true;
                                if l + 1 < list.len() {
                                    expect_first_lit = Some(l + 1);
                                }
                            }
                            send(key(KeyCode::Down, plain));
                        }
                        5 => {
                            g.note(|| format!("{t}: up, {lit:?} of {} lit", list.len()));
                            if let Some(l) = lit {
                                o.moved = true;
                                if l > 0 {
                                    expect_first_lit = Some(l - 1);
                                }
                            }
                            send(key(KeyCode::Up, plain));
                        }
                        6 => {
                            g.note(|| format!("{t}: enter, {lit:?} of {} lit", list.len()));
                            if let Some(l) = lit {
                                run = Some(list[l].0);
                                close = Some(true);
                            }
                            send(key(KeyCode::Enter, plain));
                        }
                        7 => {
                            g.note(|| format!("{t}: escape"));
                            close = Some(false);
                            send(key(KeyCode::Esc, plain));
                        }
                        8 => {
                            let (x, y) = (g.usize(0, W as usize - 1), g.usize(0, 2));
                            g.note(|| format!("{t}: click outside at {x},{y}"));
                            close = Some(false);
                            send(mouse(MouseEventKind::Down(MouseButton::Left), x, y));
                        }
                        9 if !seen.as_ref().unwrap().rows.is_empty() => {
                            let rows = &seen.as_ref().unwrap().rows;
                            let r = &rows[g.usize(0, rows.len() - 1)];
                            let x = g.usize(2, 8);
                            g.note(|| format!("{t}: click on {:?}", r.1));
                            send(mouse(MouseEventKind::Down(MouseButton::Left), x, r.0));
                            // results may arrive in between
                            tokio::time::sleep(Duration::from_millis(1)).await;
                            term.feed(&textual::vp_hooks::take_output())?;
                            let Some(seen) = look(&term) else { fail!("pressing the mouse button on an entry closed the palette") };
                            let list = if seen.rows.iter().any(|r| r.1 == NONE) { vec![] } else { entries(&seen, &all)? };
                            if let Some(e) = list.iter().find(|e| r.0 >= e.2 && r.0 < e.2 + e.3) {
                                run = Some(e.0);
                                close = Some(true);
                            }
                            send(mouse(MouseEventKind::Up(MouseButton::Left), x, r.0));
                        }
                        10 => {
                            let (x, y) = (g.usize(0, W as usize - 1), g.usize(0, H as usize - 1));
                            let k = *g.of(&[MouseEventKind::Moved, MouseEventKind::ScrollDown, MouseEventKind::ScrollUp]);
                            g.note(|| format!("{t}: {k:?} at {x},{y}"));
                            send(mouse(k, x, y));
                        }
                        _ => {
                            g.note(|| format!("{t}: ctrl+p again"));
                            retired.push((o.session, o.opened));
                            o.opened = t;
                            sessions += 1;
                            o.session = sessions;
                            edited = true;
                            send(key(KeyCode::Char('p'), KeyModifiers::CONTROL));
                        }
                    }
                    if edited {
                        changed += 1;
                        o.searched = t;
                        o.stale = shown;
                        o.moved = false;
                    }
                } else {
                    match g.weighted(&[6, 2, 2, 1]) {
                        0 => {
                            g.note(|| format!("{t}: ctrl+p"));
                            sessions += 1;
                            open = Some(Open { query: vec![], cursor: 0, opened: t, searched: t, stale: vec![], moved: false, focus, before: term.cells.clone(), session: sessions });
                            send(key(KeyCode::Char('p'), KeyModifiers::CONTROL));
                            tokio::time::sleep(Duration::from_millis(1)).await;
                            let f = fresh(&log);
                            ensure_eq!(f.first(), Some(&Told::Opened), "told after ctrl+p: {f:?}");
                        }
                        1 => {
                            g.note(|| format!("{t}: type"));
                            send(key(KeyCode::Char('z'), plain));
                            tokio::time::sleep(Duration::from_millis(1)).await;
                            ensure_eq!(fresh(&log), vec![Told::Spot(focus, 'z'), Told::Key(KeyCode::Char('z'))], "told after a letter with spot {focus} focused");
                        }
                        2 => {
                            g.note(|| format!("{t}: tab"));
                            focus = (focus + 1) % spots;
                            send(key(KeyCode::Tab, plain));
                            tokio::time::sleep(Duration::from_millis(1)).await;
                            ensure_eq!(fresh(&log), vec![Told::Key(KeyCode::Tab)], "told after tab");
                        }
                        _ => {
                            let (x, y) = (g.usize(0, 3), 1 + g.usize(0, spots - 1));
                            g.note(|| format!("{t}: click on spot {}", y - 1));
                            send(mouse(MouseEventKind::Down(MouseButton::Left), x, y));
                            tokio::time::sleep(Duration::from_millis(1)).await;
                            ensure_eq!(fresh(&log), vec![Told::Spot(y - 1, '!')], "told after a click");
                        }
                    }
                }
                tokio::time::sleep_until(t0 + Duration::from_millis(t + 2)).await;
                term.feed(&textual::vp_hooks::take_output())?;
                let f = fresh(&log);
                if let Some(yes) = close {
                    let o = open.take().unwrap();
                    focus = o.focus;
                    let mut want = vec![];
                    let action = run.map(|n| all[n].action.clone());
                    let reopen = action.as_deref() == Some("app.command_palette");
                    if let Some(a) = &action {
                        if !reopen {
                            ran += 1;
                            want.push(Told::Action(a.clone()));
                        }
                        if let Some(n) = a.strip_prefix("focus s") {
                            focus = n.parse().unwrap();
                        }
                    }
                    let acts: Vec<Told> = f.iter().filter(|t| matches!(t, Told::Action(_))).cloned().collect();
                    ensure_eq!(acts, want, "actions run");
                    if action.as_deref() == Some("quit") {
                        quit = true;
                        ensure!(etx.is_closed(), "the quit command was run but the application goes on");
                        return Ok(());
                    }
                    let mut rest: Vec<Told> = f.iter().filter(|t| !matches!(t, Told::Action(_) | Told::Lit(..))).cloned().collect();
                    ensure!(!rest.is_empty() && rest[0] == Told::Closed(yes), "told when the palette closed: {f:?}");
                    rest.remove(0);
                    if reopen {
                        ensure_eq!(rest, vec![Told::Opened], "told when the palette was reopened, {f:?}");
                        retired.push((o.session, o.opened));
                        sessions += 1;
                        open = Some(Open { query: vec![], cursor: 0, opened: t, searched: t, stale: vec![], moved: false, focus, before: o.before, session: sessions });
                    } else {
                        ensure!(rest.is_empty(), "told when the palette closed: {f:?}");
                        ensure!(look(&term).is_none(), "the palette is still shown after it was closed");
                        let out = W as usize;
                        // the status line counts the actions, and the focus may have been moved
                        if action.is_none() {
                            ensure!(term.cells == o.before, "the screen is not what it was before the palette was opened:\n{}", text_rows(&term).join("\n"));
                        } else {
                            ensure!(term.cells[out * 3..] == o.before[out * 3..], "the screen is not what it was before the palette was opened:\n{}", text_rows(&term).join("\n"));
                            let rows = text_rows(&term);
                            ensure_eq!(rows[0], format!("{ran} actions"), "the status line after an action");
                            let marks: Vec<&str> = (0..spots).map(|i| if i == focus { "######" } else { "------" }).collect();
                            ensure_eq!(rows[1..=spots].to_vec(), marks, "the focused spot after the action {action:?}");
                        }
                        retired.push((o.session, o.opened));
                    }
                } else if open.is_some() {
                    let odd: Vec<&Told> = f.iter().filter(|t| !matches!(t, Told::Lit(..) | Told::Opened)).collect();
                    ensure!(odd.is_empty(), "the application was told {odd:?} while the palette was open");
                    ensure!(!etx.is_closed(), "the application ended");
                    if let Some(n) = expect_first_lit {
                        let c = &all[list[n].0];
                        let want = Told::Lit(n, c.name.clone(), c.action.clone(), c.help.clone());
                        ensure_eq!(f.first(), Some(&want), "told after the selection moved");
                    }
                }
                // providers that are not asked any more are shut down, unless they are still starting up
                for &(session, opened) in &retired {
                    let mine: Vec<(usize, Call)> = calls.lock().unwrap().iter().filter(|c| c.0 / 10 == session).cloned().collect();
                    for (i, p) in provs.iter().enumerate().filter(|(_, p)| p.delay.is_some()) {
                        let down = mine.iter().filter(|c| c.0 % 10 == i && c.1 == Call::Shutdown).count();
                        ensure!(down == 1 || (down == 0 && t < opened + p.startup + 2), "provider {i} of session {session} was shut down {down} times: {mine:?}");
                        ensure_eq!(mine.iter().filter(|c| c.0 % 10 == i && c.1 == Call::Startup).count(), 1, "how often provider {i} of session {session} was started");
                    }
                }
                // ---- let some time pass, looking now and then
                let until = t + 10
                    + 10 * match g.weighted(&[5, 4, 4, 2]) {
                        0 => 0,
                        1 => g.below(10),
                        2 => g.below(70),
                        _ => 70 + g.below(150),
                    };
                let mut looks: Vec<u64> = vec![t + 3, until];
                if until > t + 30 {
                    looks.insert(1, t + 10 + g.below(until - t - 20));
                }
                for at in looks {
                    tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
                    term.feed(&textual::vp_hooks::take_output())?;
                    let Some(o) = &open else { continue };
                    let Some(seen) = look(&term) else { fail!("the palette is not shown at {at} ms") };
                    let rows = text_rows(&term);
                    let typed: String = o.query.iter().collect();
                    ensure_eq!(seen.query, if typed.is_empty() { "Search for commands…".to_string() } else { typed.trim().to_string() }, "the search text shown");
                    ensure!(rows[1..=spots].iter().all(|r| r == "------"), "a spot is focused while the palette is open");
                    let none = seen.rows.iter().any(|r| r.1 == NONE);
                    let list = if none { vec![] } else { entries(&seen, &all)? };
                    ensure!(!none || (seen.rows.len() == 1 && !seen.rows[0].2), "{NONE:?} is not alone and unlit: {seen:?}");
                    // one entry is lit, the one the application was told about
                    let lit: Vec<usize> = list.iter().enumerate().filter(|(_, e)| e.1).map(|(i, _)| i).collect();
                    ensure!(lit.len() == !list.is_empty() as usize, "{} of {} entries are highlighted: {seen:?}", lit.len(), list.len());
                    if let Some(&l) = lit.first() {
                        let c = &all[list[l].0];
                        let told = log.borrow().iter().rev().find(|t| matches!(t, Told::Lit(..))).cloned();
                        ensure_eq!(told, Some(Told::Lit(l, c.name.clone(), c.action.clone(), c.help.clone())), "the last highlight the application was told about, at {at} ms");
                    }
                    // nothing but hits for this search, unless the list of the search before is still there
                    let q = o.trimmed();
                    let ids: Vec<usize> = list.iter().map(|e| e.0).collect();
                    let hit = |n: usize| provs.iter().any(|p| found(p, &q).iter().any(|(_, c)| *c == all[n]));
                    ensure!(ids.iter().all(|&n| hit(n)) || ids == o.stale, "at {at} ms the list for {q:?} shows {:?}, and before {:?}", ids.iter().map(|&n| &all[n].name).collect::<Vec<_>>(), o.stale.iter().map(|&n| &all[n].name).collect::<Vec<_>>());
                    // when every provider has answered
                    let done = provs.iter().map(|p| o.done(p)).max().unwrap_or(o.searched);
                    if at > done + 52 {
                        settled += 1;
                        let mut want: Vec<(f32, u64, usize)> = vec![];
                        for p in provs.iter() {
                            for (s, c) in found(p, &q) {
                                want.push((s, o.done(p), all.iter().position(|x| *x == c).unwrap()));
                            }
                        }
                        want.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap().then(a.1.cmp(&b.1)));
                        let want: Vec<usize> = want.iter().map(|w| w.2).collect();
                        let names = |v: &[usize]| v.iter().map(|&n| all[n].name.clone()).collect::<Vec<_>>();
                        ensure_eq!(names(&ids), names(&want), "the list for {q:?} at {at} ms, every provider having answered at {done} ms");
                        ensure!(!seen.spinner, "the busy indicator is shown at {at} ms, every provider having answered at {done} ms");
                        if !o.moved && !ids.is_empty() {
                            ensure_eq!(lit[0], 0, "the entry highlighted after a new search");
                        }
                        if want.is_empty() && !q.is_empty() {
                            if at < done + 500 {
                                ensure!(!none, "{NONE:?} at {at} ms, {done} ms being the end of the search");
                            } else if at > done + 602 {
                                ensure!(none, "no {NONE:?} at {at} ms, {done} ms being the end of the search");
                            }
                        } else {
                            ensure!(!none, "{NONE:?} with {q:?}");
                        }
                    } else if at < o.searched + 500 {
                        ensure!(!seen.spinner, "the busy indicator at {at} ms, {} ms being the start of the search", o.searched);
                    } else if at > o.searched + 552 && at < done {
                        ensure!(seen.spinner, "no busy indicator at {at} ms, the search having started at {} ms", o.searched);
                    }
                }
                t = until;
            }
            g.nontrivial_if(settled > 0 && (ran > 0 || changed > 1));
            g.label_if(ran > 0, "command run");
            g.label_if(sessions > 1, "opened again");
            g.key(&(t, sessions, ran, changed, format!("{provs:?}")));
            drop(etx);
            Ok::<(), Fail>(())
        };
        let (d, r) = tokio::join!(driver, tokio::time::timeout(Duration::from_secs(3600), app.event_loop_async()));
        d?;
        ensure!(matches!(r, Ok(Ok(()))), "the event loop does not end");
        let _ = quit;
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------ the key that opens it

/// Bindings, with the keys they stand for: which modifiers are asked for, and the key.
type Combo = (KeyModifiers, KeyCode);
const C: KeyModifiers = KeyModifiers::CONTROL;
const A: KeyModifiers = KeyModifiers::ALT;
const S: KeyModifiers = KeyModifiers::SHIFT;
const O: KeyModifiers = KeyModifiers::NONE;
const BINDINGS: [(&str, &[Combo]); 14] = [
    ("ctrl+p", &[(C, KeyCode::Char('p'))]),
    ("control+P, alt+x", &[(C, KeyCode::Char('p')), (A, KeyCode::Char('x'))]),
    ("ctrl+backslash", &[(C, KeyCode::Char('\\'))]),
    (" escape ,, enter", &[(O, KeyCode::Esc), (O, KeyCode::Enter)]),
    ("Alt + Up,pageup,shift+home", &[(A, KeyCode::Up), (O, KeyCode::PageUp), (S, KeyCode::Home)]),
    ("ctrl+alt+space", &[(C.union(A), KeyCode::Char(' '))]),
    ("shift+a", &[(S, KeyCode::Char('a'))]),
    ("?", &[(O, KeyCode::Char('?'))]),
    ("esc,left,right,down,end,pagedown", &[(O, KeyCode::Esc), (O, KeyCode::Left), (O, KeyCode::Right), (O, KeyCode::Down), (O, KeyCode::End), (O, KeyCode::PageDown)]),
    ("alt+tab,ctrl+backtab", &[(A, KeyCode::Tab), (C, KeyCode::BackTab)]),
    ("p+ctrl", &[(C, KeyCode::Char('p'))]),
    ("nosuchkey, ctrl+", &[]),
    ("", &[]),
    ("home,Ctrl+Enter", &[(O, KeyCode::Home), (C, KeyCode::Enter)]),
];

struct KeyApp<const N: usize> {
    log: Rc<RefCell<Vec<String>>>,
}

impl<const N: usize> App for KeyApp<N> {
    type Message = ();
    const COMMAND_PALETTE_BINDING: &'static str = BINDINGS[N].0;
    fn compose(&self) -> Vec<Box<dyn Widget<()>>> {
        vec![Box::new(Static::new("x"))]
    }
    fn on_command_palette_event(&mut self, e: CommandPaletteEvent, _: &mut EventContext<()>) {
        if let CommandPaletteEvent::Opened = e {
            self.log.borrow_mut().push("opened".into());
        }
    }
    fn handle_message(&mut self, _: MessageEnvelope<()>, _: &mut EventContext<()>) {}
    fn on_key(&mut self, key: KeyCode, _: &mut EventContext<()>) {
        self.log.borrow_mut().push(format!("{key:?}"));
    }
}

fn binding(g: &mut G) -> R {
    macro_rules! pick {
        ($($n:literal)*) => {{
            match g.usize(0, BINDINGS.len() - 1) {
                $($n => bind::<$n>(g),)*
                _ => unreachable!(),
            }
        }};
    }
    pick!(0 1 2 3 4 5 6 7 8 9 10 11 12 13)
}

fn bind<const N: usize>(g: &mut G) -> R {
    let (text, combos) = BINDINGS[N];
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let keys: Vec<Combo> = g.vec(1, 5, |g| {
        let (mut m, mut k) = if !combos.is_empty() && g.chance(1, 2) { *g.of(combos) } else { { let c = g_combo(g); *g.of(c) } };
        if g.chance(1, 3) {
            m = *g.of(&[O, C, A, S, C.union(A), C.union(S), A.union(S)]);
        }
        if let KeyCode::Char(c) = k {
            if g.chance(1, 3) {
                k = KeyCode::Char(c.to_ascii_uppercase());
            }
        }
        (m, k)
    });
    g.note(|| format!("binding {text:?}, keys {keys:?}"));
    rt.block_on(async {
        textual::vp_hooks::capture_output();
        let (etx, erx) = mpsc::unbounded_channel();
        textual::vp_hooks::set_terminal((40, 12), erx);
        let log = Rc::new(RefCell::new(vec![]));
        let mut app = KeyApp::<N> { log: log.clone() };
        let mut want = vec![];
        let mut opened = false;
        for (m, k) in &keys {
            let _ = etx.send(Ok(Event::Key(KeyEvent::new(*k, *m))));
            let same = |c: &KeyCode| match (c, k) {
                (KeyCode::Char(a), KeyCode::Char(b)) => a.eq_ignore_ascii_case(b),
                (a, b) => a == b,
            };
            if combos.iter().any(|(cm, ck)| same(ck) && m.contains(*cm) && (*m - *cm - S).is_empty()) {
                want.push("opened".to_string());
                opened = true;
                break;
            }
            want.push(format!("{k:?}"));
        }
        drop(etx);
        let r = tokio::time::timeout(Duration::from_secs(3600), app.event_loop_async()).await;
        ensure!(matches!(r, Ok(Ok(()))), "the event loop does not end");
        let got = log.borrow().clone();
        ensure_eq!(got, want, "what the application was told");
        g.label_if(opened, "opened");
        g.nontrivial_if(keys.iter().any(|(m, _)| !m.is_empty()));
        g.key(&(N, format!("{keys:?}")));
        Ok(())
    })
}

/// The keys of any binding.
fn g_combo(g: &mut G) -> &'static [Combo] {
    let all: Vec<&'static [Combo]> = BINDINGS.iter().map(|b| b.1).filter(|c| !c.is_empty()).collect();
    all[g.usize(0, all.len() - 1)]
}

pub const P22: Property = Property {
    id: "C22",
    rule: "a match with a gap (fuzzy); some but not all commands found (providers); a search that settled, and a command run or two edits of the search text (session); a key with a modifier (key)",
    assumptions: &["virtual time: the runtime's clock is paused and advances only when every task waits"],
    parts: &[
        Part { name: "fuzzy", quick: 150_000, thorough: 10_000_000, f: fuzzy },
        Part { name: "repeats", quick: 6_000, thorough: 600_000, f: repeats },
        Part { name: "providers", quick: 20_000, thorough: 600_000, f: providers },
        Part { name: "session", quick: 3_000, thorough: 100_000, f: session },
        Part { name: "key", quick: 20_000, thorough: 400_000, f: binding },
    ],
};
