//! C28: timers, intervals, posted messages and bursts of input. The application keeps a ledger of everything it asked
//! for; the real event loop runs on a paused clock; what it was told, and when, is checked against the ledger.
use crate::c11_canvas::{Term, canvas_cells};
use crate::engine::{Fail, G, Part, Property, R};
use crate::{ensure, ensure_eq, fail};
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::Duration;
use tcss::types::Theme;
use textual::style_resolver::resolve_styles;
use textual::widget::app_widget::AppWidget;
use textual::{App, AppContext, Canvas, EventContext, IntervalHandle, MessageEnvelope, MountContext, Region, Screen, Static, Tooltip, Widget};
use tokio::sync::mpsc;
use tokio::time::Instant;

#[derive(Clone, Debug, PartialEq)]
enum Msg {
    /// unique number
    One(u32),
    /// interval, how often its function has been called
    Tick(u32, u32),
    Click,
}

#[derive(Clone, Debug)]
enum Act {
    Post(usize),
    /// a post that says who it is from
    Signed(&'static str),
    Timer(u64),
    SignedTimer(u64, Option<&'static str>),
    Interval(u64, usize, Option<&'static str>),
    Cancel(usize),
    Drop(usize),
    /// a task of the application's own that sends through the loop's channel: (wait, how many)
    Task(u64, usize),
    Quit,
}

#[derive(Debug, Clone, PartialEq)]
enum Told {
    Key(KeyCode),
    Message(Msg, Option<String>, String),
}

#[derive(Debug)]
struct Want {
    due: u64,
    sender: (Option<String>, String),
    /// position in the channel's order, if it is known when it was sent
    seq: Option<usize>,
}

#[derive(Debug)]
struct Beat {
    start: u64,
    period: u64,
    sender: (Option<String>, String),
    cancelled: Option<u64>,
}

#[derive(Default)]
struct Ledger {
    told: Vec<(u64, Told)>,
    want: HashMap<u32, Want>,
    beats: Vec<Beat>,
    next: u32,
    seq: usize,
    quit_at: Option<(u64, usize)>,
}

struct Clockwork {
    t0: Instant,
    table: Rc<Vec<Act>>,
    mount: Vec<Act>,
    ledger: Rc<RefCell<Ledger>>,
    slots: [Option<(usize, IntervalHandle)>; 3],
    budget: usize,
    quit: bool,
}

const WIDTH: u16 = 24;

impl Clockwork {
    fn now(&self) -> u64 {
        (Instant::now() - self.t0).as_millis() as u64
    }
    fn expect(&mut self, due: u64, sender: (Option<&str>, &str), queued: bool) -> Msg {
        let mut l = self.ledger.borrow_mut();
        let n = l.next;
        l.next += 1;
        let seq = queued.then(|| {
            l.seq += 1;
            l.seq
        });
        l.want.insert(n, Want { due, sender: (sender.0.map(String::from), sender.1.into()), seq });
        Msg::One(n)
    }
    fn stop(&mut self, slot: usize) {
        if let Some((i, _)) = &self.slots[slot] {
            let now = self.now();
            self.ledger.borrow_mut().beats[*i].cancelled.get_or_insert(now);
        }
    }
    fn act(&mut self, a: &Act, ctx: &AppContext<Msg>) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let now = self.now();
        const PLAIN: (Option<&str>, &str) = (None, "AppContext");
        match a {
            Act::Post(n) => {
                for _ in 0..*n {
                    let m = self.expect(now, PLAIN, true);
                    ctx.post(m);
                }
            }
            Act::Signed(id) => {
                let m = self.expect(now, (Some(id), "Signed"), true);
                ctx.clone().with_sender_info(Some(id), "Signed").post(m);
            }
            Act::Timer(d) => {
                let m = self.expect(now + d, PLAIN, false);
                ctx.set_timer(Duration::from_millis(*d), m);
            }
            Act::SignedTimer(d, id) => {
                let m = self.expect(now + d, (*id, "Signed"), false);
                ctx.clone().with_sender_info(*id, "Signed").set_timer(Duration::from_millis(*d), m);
            }
            Act::Interval(p, slot, signed) => {
                self.stop(*slot);
                let i = self.ledger.borrow().beats.len();
                let ctx = match signed {
                    Some(id) => ctx.clone().with_sender_info(Some(id), "Beat"),
                    None => ctx.clone(),
                };
                let sender = (signed.map(String::from), if signed.is_some() { "Beat" } else { PLAIN.1 }.to_string());
                self.ledger.borrow_mut().beats.push(Beat { start: now, period: *p, sender, cancelled: None });
                let calls = AtomicU32::new(0);
                let h = ctx.set_interval(Duration::from_millis(*p), move || Msg::Tick(i as u32, calls.fetch_add(1, Ordering::Relaxed) + 1));
                // whatever was in the slot is dropped, which cancels it
                self.slots[*slot] = Some((i, h));
            }
            Act::Cancel(slot) => {
                self.stop(*slot);
                if let Some((_, h)) = &mut self.slots[*slot] {
                    h.cancel();
                }
            }
            Act::Drop(slot) => {
                self.stop(*slot);
                self.slots[*slot] = None;
            }
            Act::Task(wait, n) => {
                let ms: Vec<Msg> = (0..*n).map(|_| self.expect(now + wait, (Some("task"), "Task"), false)).collect();
                let (tx, wait) = (ctx.sender(), Duration::from_millis(*wait));
                tokio::spawn(async move {
                    tokio::time::sleep(wait).await;
                    for m in ms {
                        let _ = tx.send(MessageEnvelope::new(m, Some("task"), "Task"));
                    }
                });
            }
            Act::Quit => {
                self.quit = true;
                let mut l = self.ledger.borrow_mut();
                let n = l.told.len();
                l.quit_at.get_or_insert((now, n));
            }
        }
    }
    fn told(&mut self, t: Told) {
        let now = self.now();
        self.ledger.borrow_mut().told.push((now, t));
    }
    fn text(&self) -> String {
        let l = self.ledger.borrow();
        format!("{} told, last {}", l.told.len(), l.told.last().map(|t| t.0).unwrap_or(0))
    }
    fn react(&mut self, n: usize, ctx: &mut EventContext<Msg>) {
        let text = self.text();
        ctx.query_one_as::<Static<Msg>, _, _>("#out", |s| s.update(text));
        let a = self.table[n % self.table.len()].clone();
        let app_ctx = ctx.app_context().clone();
        self.act(&a, &app_ctx);
    }
}

/// A button that covers its region.
fn widgets(text: String) -> Vec<Box<dyn Widget<Msg>>> {
    vec![Box::new(Static::<Msg>::new(text).with_id("out")), Box::new(textual::Button::<Msg>::new("press").with_id("go").with_message(Msg::Click))]
}

impl App for Clockwork {
    type Message = Msg;
    const CSS: &'static str = "#out { width: 24; height: 1; } Button { width: 10; height: 1; border: none; }";
    const ENABLE_COMMAND_PALETTE: bool = false;
    fn compose(&self) -> Vec<Box<dyn Widget<Msg>>> {
        widgets(self.text())
    }
    fn handle_message(&mut self, e: MessageEnvelope<Msg>, ctx: &mut EventContext<Msg>) {
        let n = match &e.message {
            Msg::One(n) => *n as usize,
            Msg::Tick(i, n) => (*i * 3 + *n) as usize,
            Msg::Click => 1,
        };
        self.told(Told::Message(e.message, e.sender_id, e.sender_type));
        self.react(n, ctx);
    }
    fn on_key(&mut self, key: KeyCode, ctx: &mut EventContext<Msg>) {
        self.told(Told::Key(key));
        let n = if let KeyCode::Char(c) = key { c as usize } else { 0 };
        self.react(n, ctx);
    }
    fn on_mount(&mut self, ctx: &mut MountContext<Msg>) {
        let c = ctx.app_context().clone();
        for a in self.mount.clone() {
            self.act(&a, &c);
        }
    }
    fn should_quit(&self) -> bool {
        self.quit
    }
    fn request_quit(&mut self) {
        self.quit = true;
    }
    fn reset_quit(&mut self) {
        self.quit = false;
    }
}

fn gen_act(g: &mut G, quit: bool) -> Act {
    let slot = g.usize(0, 2);
    let delay = |g: &mut G| match g.weighted(&[1, 4, 3, 1]) {
        0 => 0,
        1 => g.below(30) + 1,
        2 => 50 * g.below(6),
        _ => g.below(2000),
    };
    match g.weighted(&[4, 2, 5, 1, 4, 2, 2, 3, quit as u64]) {
        0 => Act::Post(g.usize(1, 3)),
        1 => Act::Signed(*g.of(&["x", "y"])),
        2 => Act::Timer(delay(g)),
        3 => Act::SignedTimer(delay(g), *g.of(&[None, Some("t"), Some("long one"), Some("")])),
        4 => Act::Interval(delay(g).max(1), slot, *g.of(&[None, Some("x"), Some("beating"), Some("")])),
        5 => Act::Cancel(slot),
        6 => Act::Drop(slot),
        7 => Act::Task(delay(g), g.usize(1, 4)),
        _ => Act::Quit,
    }
}

thread_local! {
    static THEME: Theme = Theme::standard_themes()["textual-dark"].clone();
    static SHEET: RefCell<Option<Rc<tcss::parser::StyleSheet>>> = const { RefCell::new(None) };
}

/// The picture of an application that shows `text`.
fn picture(text: String, h: u16) -> Vec<crate::c11_canvas::MCell> {
    let mut root = AppWidget::new(vec![Box::new(Screen::new(widgets(text))) as Box<dyn Widget<Msg>>, Box::new(Tooltip::new())]);
    root.clear_focus();
    root.focus_nth(0);
    root.on_resize(textual::Size::new(WIDTH, h));
    let sheet = SHEET.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                fn css(w: &mut dyn Widget<Msg>, out: &mut String) {
                    out.push_str(w.default_css());
                    out.push('\n');
                    w.for_each_child(&mut |k| css(k, out));
                }
                let mut text = <Screen<Msg> as Widget<Msg>>::base_widget_css().to_string();
                text.push('\n');
                css(&mut root, &mut text);
                text.push_str(Clockwork::CSS);
                Rc::new(tcss::parser::parse_stylesheet(&text).expect("the style sheet parses"))
            })
            .clone()
    });
    THEME.with(|t| resolve_styles(&mut root, &sheet, t, &mut VecDeque::new()));
    let mut c = Canvas::new(WIDTH, h);
    root.render(&mut c, Region::from_u16(0, 0, WIDTH, h));
    canvas_cells(&c)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Closed,
    Failed,
    Quit,
}

fn schedule(g: &mut G) -> R {
    let quit = g.chance(1, 3);
    let table: Rc<Vec<Act>> = Rc::new((0..g.usize(2, 9)).map(|_| gen_act(g, quit)).collect());
    let mount = g.vec(0, 4, |g| gen_act(g, false));
    g.note(|| format!("on mount {mount:?}\nreactions {table:?}"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        textual::vp_hooks::capture_output();
        let h = 4;
        let (etx, erx) = mpsc::unbounded_channel();
        textual::vp_hooks::set_terminal((WIDTH, h), erx);
        let t0 = Instant::now();
        let ledger: Rc<RefCell<Ledger>> = Rc::default();
        let mut app = Clockwork { t0, table: table.clone(), mount, ledger: ledger.clone(), slots: [None, None, None], budget: 40, quit: false };
        let mut keys: Vec<(u64, KeyCode)> = vec![];
        let mut clicks: Vec<u64> = vec![];
        let mut end = (End::Closed, 0u64);
        let mut biggest = 0;
        let driver = async {
            let mut term = Term::new(WIDTH as usize, h as usize, "?");
            let mut t = 0;
            for _ in 0..g.usize(1, 6) {
                // Usually between the milliseconds at which timers end, sometimes exactly on a tick.
                let to = t + if g.chance(1, 5) { 50 * g.below(4) } else { g.below(300) };
                tokio::time::sleep_until(t0 + Duration::from_millis(to)).await;
                t = to;
                if etx.is_closed() {
                    break;
                }
                let n = match g.weighted(&[3, 3, 1]) {
                    0 => 1,
                    1 => g.usize(2, 8),
                    _ => g.usize(9, 120),
                };
                biggest = biggest.max(n);
                g.note(|| format!("{n} input events at {t} ms"));
                for _ in 0..n {
                    let e = match g.weighted(&[8, 1, 1, 1]) {
                        0 => {
                            let k = KeyCode::Char(*g.of(&['a', 'b', 'c', 'd', 'e', 'f', 'g']));
                            keys.push((t, k));
                            Event::Key(KeyEvent::new(k, KeyModifiers::NONE))
                        }
                        1 => {
                            clicks.push(t);
                            Event::Mouse(MouseEvent { kind: MouseEventKind::Down(MouseButton::Left), column: 1, row: 1, modifiers: KeyModifiers::NONE })
                        }
                        2 => Event::Mouse(MouseEvent { kind: MouseEventKind::Up(MouseButton::Left), column: 23, row: 3, modifiers: KeyModifiers::NONE }),
                        _ => Event::Resize(WIDTH, h),
                    };
                    let _ = etx.send(Ok(e));
                }
                // A moment later everything that could be handled has been, and the screen shows it.
                tokio::time::sleep(Duration::from_millis(1)).await;
                t += 1;
                if etx.is_closed() {
                    break;
                }
                term.feed(&textual::vp_hooks::take_output())?;
                let l = ledger.borrow();
                let text = format!("{} told, last {}", l.told.len(), l.told.last().map(|t| t.0).unwrap_or(0));
                drop(l);
                term.shows(&picture(text, h), &format!("input at {} ms", t - 1))?;
            }
            let rest = if g.chance(1, 4) { 4000 } else { 1500 };
            tokio::time::sleep_until(t0 + Duration::from_millis(t + g.below(rest))).await;
            let now = (Instant::now() - t0).as_millis() as u64;
            end = (End::Closed, now);
            if etx.is_closed() {
                end.0 = End::Quit;
            } else if g.chance(1, 4) {
                end.0 = End::Failed;
                let _ = etx.send(Err(std::io::Error::other("the terminal went away")));
                // nothing after the error is looked at
                let _ = etx.send(Ok(Event::Key(KeyEvent::new(KeyCode::F(9), KeyModifiers::NONE))));
                tokio::time::sleep(Duration::from_millis(700)).await;
            }
            drop(etx);
            Ok::<(), Fail>(())
        };
        let looping = async {
            let r = tokio::time::timeout(Duration::from_secs(36_000), app.event_loop_async()).await;
            (r, (Instant::now() - t0).as_millis() as u64)
        };
        let (d, (r, ended)) = tokio::join!(driver, looping);
        d?;
        let (how, at) = end;
        let l = ledger.borrow();
        let quit_at = l.quit_at;
        match (how, r) {
            (_, Err(_)) => fail!("the event loop does not end"),
            (End::Closed, Ok(Ok(()))) | (End::Quit, Ok(Ok(()))) => {}
            (End::Failed, Ok(Err(e))) => ensure!(e.to_string().contains("the terminal went away"), "a failing terminal ended the loop with {e}"),
            (End::Failed, Ok(Ok(()))) => fail!("the input failed but the event loop ended as if nothing had happened"),
            (_, Ok(Err(e))) => fail!("the event loop failed: {e}"),
        }
        match quit_at {
            Some((t, n)) => {
                ensure_eq!(ended, t, "when the loop ended after the application asked to quit");
                ensure_eq!(l.told.len(), n, "how many things the application had been told when it asked to quit, and at the end");
            }
            None => {
                ensure!(how != End::Quit, "the event loop ended by itself at {ended} ms");
                ensure_eq!(ended, at, "when the loop ended after the input had");
            }
        }
        let last = ended;
        // keys and clicks: every one, once, in order, when it was sent
        let got: Vec<(u64, KeyCode)> = l.told.iter().filter_map(|(t, x)| if let Told::Key(k) = x { Some((*t, *k)) } else { None }).collect();
        if quit_at.is_none() {
            ensure_eq!(got, keys, "keys (when, which)");
        } else {
            ensure!(got.len() <= keys.len() && got[..] == keys[..got.len()], "keys\n   got: {got:?}\n  want a beginning of: {keys:?}");
            ensure!(keys[got.len()..].iter().all(|k| k.0 >= last), "keys sent before the application asked to quit at {last} ms were not handled: {:?}", &keys[got.len()..]);
        }
        let pressed: Vec<u64> = l.told.iter().filter_map(|(t, x)| if let Told::Message(Msg::Click, ..) = x { Some(*t) } else { None }).collect();
        // A button press is reported on the press or the release; each of ours is a press inside and a release elsewhere.
        ensure!(pressed.iter().all(|t| clicks.contains(t)), "button messages at {pressed:?}, clicks at {clicks:?}");
        // messages: every one, once, when due, from whom it was sent
        let mut seen: HashMap<u32, u64> = HashMap::new();
        let mut seqs = vec![];
        for (t, x) in &l.told {
            let Told::Message(Msg::One(n), id, ty) = x else { continue };
            let Some(w) = l.want.get(n) else { fail!("message {n} was never sent") };
            ensure!(seen.insert(*n, *t).is_none(), "message {n} was delivered twice");
            ensure!(*t == w.due, "message {n} was delivered at {t} ms and due at {} ms", w.due);
            ensure_eq!((id.clone(), ty.clone()), w.sender.clone(), "sender of message {n}");
            seqs.extend(w.seq);
        }
        ensure!(seqs.windows(2).all(|w| w[0] < w[1]), "posted messages arrive out of order: {seqs:?}");
        for (n, w) in &l.want {
            let owed = if quit_at.is_some() || how == End::Failed { w.due < last } else { w.due < last };
            ensure!(!owed || seen.contains_key(n), "message {n} due at {} ms was not delivered by {last} ms", w.due);
        }
        // intervals
        for (_, x) in &l.told {
            let Told::Message(Msg::Tick(i, _), id, ty) = x else { continue };
            let Some(b) = l.beats.get(*i as usize) else { fail!("interval {i} was never started") };
            ensure_eq!((id.clone(), ty.clone()), b.sender.clone(), "sender of a tick of interval {i}");
        }
        let mut beats = 0;
        for (i, b) in l.beats.iter().enumerate() {
            let ticks: Vec<(u64, u32)> = l.told.iter().filter_map(|(t, x)| if let Told::Message(Msg::Tick(j, n), ..) = x { (*j == i as u32).then_some((*t, *n)) } else { None }).collect();
            beats += ticks.len();
            let stop = b.cancelled.unwrap_or(u64::MAX).min(last);
            for (k, (t, n)) in ticks.iter().enumerate() {
                ensure!(*n == k as u32 + 1 && *t == b.start + b.period * (k as u64 + 1), "interval {i} ({b:?}) ticked at {ticks:?} (time, call)");
                ensure!(*t <= stop, "interval {i} ({b:?}) ticked at {t} ms");
            }
            let owed = if stop > b.start { (stop - 1 - b.start) / b.period } else { 0 };
            ensure!(ticks.len() as u64 >= owed, "interval {i} ({b:?}) ticked {} times until {stop} ms, at least {owed} expected", ticks.len());
        }
        g.label_if(!seqs.is_empty(), "posted");
        g.label_if(beats > 0, "interval ticked");
        g.label_if(l.beats.iter().any(|b| b.cancelled.is_some()), "interval cancelled");
        g.label_if(biggest > 8, "burst");
        g.label_if(quit_at.is_some(), "quit");
        g.label_if(how == End::Failed, "input failed");
        g.nontrivial_if(!seen.is_empty() || beats > 0);
        g.key(&format!("{:?}", l.told));
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------ fairness

/// An application that answers every message with another one, `chain` times.
struct Chatter {
    chain: u32,
    log: Rc<RefCell<Vec<Told>>>,
}

impl App for Chatter {
    type Message = Msg;
    const ENABLE_COMMAND_PALETTE: bool = false;
    fn handle_message(&mut self, e: MessageEnvelope<Msg>, ctx: &mut EventContext<Msg>) {
        if let Msg::One(n) = e.message {
            if n < self.chain {
                ctx.post(Msg::One(n + 1));
            }
        }
        self.log.borrow_mut().push(Told::Message(e.message, e.sender_id, e.sender_type));
    }
    fn on_key(&mut self, key: KeyCode, _: &mut EventContext<Msg>) {
        self.log.borrow_mut().push(Told::Key(key));
    }
    fn on_mount(&mut self, ctx: &mut MountContext<Msg>) {
        ctx.post(Msg::One(0));
    }
}

/// A stream of messages does not keep input waiting, nor a stream of input the messages.
fn fair(g: &mut G) -> R {
    let (chain, keys) = (g.below(300) as u32 + 300, g.usize(300, 600));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        textual::vp_hooks::capture_output();
        let (etx, erx) = mpsc::unbounded_channel();
        textual::vp_hooks::set_terminal((3, 1), erx);
        let log: Rc<RefCell<Vec<Told>>> = Rc::default();
        let mut app = Chatter { chain, log: log.clone() };
        for i in 0..keys {
            let _ = etx.send(Ok(Event::Key(KeyEvent::new(KeyCode::Char(char::from(b'a' + (i % 16) as u8)), KeyModifiers::NONE))));
        }
        let driver = async {
            tokio::time::sleep(Duration::from_millis(7)).await;
            drop(etx);
        };
        let (_, r) = tokio::join!(driver, tokio::time::timeout(Duration::from_secs(100), app.event_loop_async()));
        ensure!(matches!(r, Ok(Ok(()))), "the event loop does not end");
        let log = log.borrow();
        let first = |f: &dyn Fn(&Told) -> bool| log.iter().position(|t| f(t));
        let (k, m) = (first(&|t| matches!(t, Told::Key(_))), first(&|t| matches!(t, Told::Message(..))));
        ensure_eq!(log.len(), keys + chain as usize + 1, "keys and messages handled");
        // Each turn of the loop takes what is ready in no particular order, so 150 turns in a row for one side mean it is preferred.
        ensure!(k.is_some_and(|k| k < 150), "{:?} messages were handled before the first key", k);
        ensure!(m.is_some_and(|m| m < 150), "{:?} keys were handled before the first message", m);
        g.nontrivial_if(true);
        g.key(&(chain, keys));
        Ok(())
    })
}

pub const P28: Property = Property {
    id: "C28",
    rule: "at least one posted, timed or background message or interval tick was delivered (schedules); every case (fairness)",
    assumptions: &["virtual time: the runtime's clock is paused and advances only when every task waits, so delivery times are exact to the millisecond"],
    parts: &[
        Part { name: "schedules", quick: 12_000, thorough: 600_000, f: schedule },
        Part { name: "fairness", quick: 300, thorough: 6_000, f: fair },
    ],
};
