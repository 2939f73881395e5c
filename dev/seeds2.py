CLIENT = '''use std::io::Cursor;
use vinezombie::client::{channel::SyncChannels, conn::Bidir, Client};
'''
S = [
dict(id="map-prefix-grows", prop="C17", needs="within one edit: a key inserted out of order, then one greater than it, then a lookup or insertion of a key now inside the unsorted part",
 breaks="an entry pushed after an unsorted one extends the part assumed sorted, so lookups miss entries and keys get inserted twice",
 edits=[("src/util/flatmap.rs", "            sorted_until == self.real_len && Some(key) > self.as_slice()", "            Some(key) > self.as_slice()")],
 main='''use std::collections::BTreeMap;
use vinezombie::ircmsg::Tags;
use vinezombie::string::{Key, NoNul};
fn main() {
    let mut seed = 12345u32;
    for _ in 0..300 {
        let mut tags = Tags::new();
        let mut want = BTreeMap::new();
        let mut edit = tags.edit();
        for step in 0..10u32 {
            seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
            let k = format!("k{}", (seed >> 16) % 7);
            edit.insert_pair(Key::try_from(k.clone()).unwrap(), NoNul::try_from(step.to_string()).unwrap());
            want.insert(k, step.to_string());
            if edit.len() != want.len() {
                std::process::exit(1);
            }
        }
        for (k, v) in &want {
            let got = edit.get(Key::try_from(k.clone()).unwrap());
            if got.map(|x| x.as_bytes().to_vec()) != Some(v.clone().into_bytes()) {
                std::process::exit(1);
            }
        }
    }
}
'''),
dict(id="queue-charge-from-now", prop="C20", needs="more messages queued than the burst allows",
 breaks="each pop charges the limiter from the current time rather than from what is already charged, so bursts are unlimited",
 edits=[("src/client/queue.rs", "self.timepoint = std::cmp::max(self.timepoint, Instant::now()) + self.delay;", "self.timepoint = Instant::now() + self.delay;")],
 main='''use vinezombie::{client::queue::Queue, ircmsg::ClientMsg, names::cmd::PING};
fn main() {
    let mut q = Queue::new();
    for _ in 0..20 {
        q.edit().push(ClientMsg::new(PING));
    }
    let mut n = 0;
    while q.pop(|_| ()).is_some() {
        n += 1;
    }
    std::process::exit(if n < 10 { 0 } else { 1 });
}
'''),
dict(id="handler-skip-after-done", prop="C21", needs="two handlers, the first of which finishes on a message",
 breaks="after a handler finishes, the one moved into its place is skipped for that message",
 edits=[("src/client/handler.rs", "                    let _ = self.handlers.swap_remove(i);\n", "                    let _ = self.handlers.swap_remove(i);\n                    i += usize::from(yielded);\n")],
 main=CLIENT + '''use std::ops::ControlFlow;
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc};
use vinezombie::client::{channel::{ChannelSpec, Sender, SenderRef}, queue::QueueEditGuard, ClientState, Handler, SelfMadeHandler};
use vinezombie::ircmsg::ServerMsg;
struct H(Arc<AtomicUsize>, bool);
impl Handler for H {
    type Value = u32;
    fn handle(&mut self, _: &ServerMsg<'_>, _: &mut ClientState, _: QueueEditGuard<'_>, mut c: SenderRef<'_, u32>) -> ControlFlow<()> {
        self.0.fetch_add(1, Ordering::Relaxed);
        if self.1 {
            let _ = c.send(1);
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
}
impl SelfMadeHandler for H {
    type Receiver<S: ChannelSpec> = S::Queue<u32>;
    fn queue_msgs(&self, _: &ClientState, _: QueueEditGuard<'_>) {}
    fn make_channel<S: ChannelSpec>(s: &S) -> (Box<dyn Sender<Value = u32> + Send>, Self::Receiver<S>) {
        s.new_queue()
    }
}
fn main() {
    let conn = Bidir(Cursor::new(b"NOTICE a b\\r\\nNOTICE a c\\r\\n".to_vec()), Vec::<u8>::new());
    let mut c = Client::new(conn, SyncChannels);
    let (a, b) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    let _x = c.add((), H(a.clone(), true)).unwrap();
    let _y = c.add((), H(b.clone(), false)).unwrap();
    let _ = c.run();
    let n = (a.load(Ordering::Relaxed), b.load(Ordering::Relaxed));
    std::process::exit(if n.0 == 1 && n.1 >= 1 { 0 } else { 1 });
}
'''),
dict(id="trailing-colon-lost", prop="C12", needs="a last argument that begins with a colon but contains no space",
 breaks="a trailing argument is only marked with a colon when it contains a space, so one starting with a colon loses it",
 edits=[("src/ircmsg/codec.rs", "if args.is_last_long() {", "if args.is_last_long() && (last.is_empty() || last.contains(&b' ')) {")],
 main='''use vinezombie::{ircmsg::ClientMsg, names::cmd::PRIVMSG};
fn main() {
    let mut m = ClientMsg::new(PRIVMSG);
    let mut a = m.args.edit();
    a.add_literal("#chan");
    a.add_literal(":)");
    let mut out = Vec::new();
    m.write_to(&mut out).unwrap();
    std::process::exit(if out == b"PRIVMSG #chan ::)" { 0 } else { 1 });
}
'''),
dict(id="args-keep-long", prop="C13", needs="a word added by a string method after a long argument",
 breaks="adding a non-long string after a long one keeps the long one, which then is written after it",
 edits=[("src/ircmsg/args.rs", "        words.push(unsafe { Arg::from_unchecked(s.into_bytes()) });\n        long.take()", "        words.push(unsafe { Arg::from_unchecked(s.into_bytes()) });\n        long.clone()")],
 main='''use vinezombie::{ircmsg::ClientMsg, names::cmd::PRIVMSG};
fn main() {
    let mut m = ClientMsg::new(PRIVMSG);
    let mut a = m.args.edit();
    a.add_literal("one two");
    a.add_literal("three");
    let ok = m.args.len() == 1 && !m.args.is_last_long();
    std::process::exit(if ok { 0 } else { 1 });
}
'''),
dict(id="numeric-or", prop="C18", needs="a numeric whose last two digits share a bit when combined",
 breaks="Numeric::into_int combines tens and ones with a bitwise or, so some codes come out as others",
 edits=[("src/ircmsg/numeric.rs", "h * 100 + t * 10 + o", "h * 100 + (t * 10 | o)")],
 main='''use vinezombie::ircmsg::Numeric;
fn main() {
    for i in 0..1000u16 {
        if Numeric::from_int(i).map(|n| n.into_int()) != Some(i) {
            std::process::exit(1);
        }
    }
}
'''),
dict(id="mode-class-overlap", prop="C33", needs="reassigning a mode from a class with a larger index to one with a smaller",
 breaks="moving a mode to another class only removes it from the classes after it, so it can be in two",
 edits=[("src/state/mode.rs", "            if idx != mode_type.index() {\n                set.unset(mode);\n            } else {\n                set.set(mode);\n            }",
  "            if idx == mode_type.index() {\n                set.set(mode);\n                break;\n            }\n            set.unset(mode);")],
 main='''use vinezombie::state::{Mode, ModeType, ModeTypes};
fn main() {
    let m = Mode::new(b'k').unwrap();
    let all = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];
    for a in all {
        for b in all {
            let mut t = ModeTypes::new();
            t.insert(m, a);
            t.insert(m, b);
            if t.get(m) != Some(b) || t.to_string().matches('k').count() != 1 {
                std::process::exit(1);
            }
        }
    }
}
'''),
dict(id="pong-first-arg", prop="C27", needs="a ping with two arguments",
 breaks="the pong repeats the ping's first argument instead of its last",
 edits=[("src/client/handlers/ping.rs", "        if let Some(last) = msg.args.split_last().1 {\n            reply.args.edit().add(last.clone().owning());\n        }",
  "        if let Some(first) = msg.args.words().first() {\n            reply.args.edit().add(first.clone().owning());\n        } else if let Some(last) = msg.args.split_last().1 {\n            reply.args.edit().add(last.clone().owning());\n        }")],
 main=CLIENT + '''use vinezombie::client::handlers::AutoPong;
fn main() {
    let conn = Bidir(Cursor::new(b"PING irc.example :tok en\\r\\n".to_vec()), Vec::<u8>::new());
    let mut c = Client::new(conn, SyncChannels);
    let _ = c.add((), AutoPong);
    let _ = c.run();
    let m = c.queue_mut().pop(|_| ());
    let out = m.map(|m| m.to_string()).unwrap_or_else(|| String::from_utf8(c.take_conn().1).unwrap());
    std::process::exit(if out.trim_end() == "PONG :tok en" { 0 } else { println!("{out}"); 1 });
}
'''),
dict(id="len-words-cap", prop="C36", needs="a message with more than fourteen word arguments",
 breaks="only the first fourteen word arguments are counted in the length of an argument list",
 edits=[("src/ircmsg/args.rs", "        for arg in self.words.iter() {\n            count += arg.len() + 1;", "        for arg in self.words.iter().take(14) {\n            count += arg.len() + 1;")],
 main='''use vinezombie::{ircmsg::ClientMsg, names::cmd::PRIVMSG};
fn main() {
    for n in [1usize, 5, 20] {
        let mut m = ClientMsg::new(PRIVMSG);
        for _ in 0..n {
            m.args.edit().add_literal("abc");
        }
        let mut out = Vec::new();
        m.write_to(&mut out).unwrap();
        if out.len() != "PRIVMSG".len() + 1 + m.args.len_bytes() && out.len() != "PRIVMSG".len() + m.args.len_bytes() {
            std::process::exit(1);
        }
    }
}
'''),
dict(id="ctcp-source-privmsg", prop="C28", needs="a CTCP SOURCE query",
 breaks="the reply to a CTCP SOURCE query is a PRIVMSG, so two such clients answer each other forever",
 edits=[("src/client/handlers/autoreply.rs", """            b"SOURCE" if !self.source.is_empty() => {
                let mut msg = ClientMsg::new(NOTICE);""", """            b"SOURCE" if !self.source.is_empty() => {
                let mut msg = ClientMsg::new(PRIVMSG);""")],
 main=CLIENT + '''use vinezombie::client::handlers::CtcpVersion;
use vinezombie::string::Line;
fn main() {
    let conn = Bidir(Cursor::new(b":a!b@c PRIVMSG me :\\x01SOURCE\\x01\\r\\n".to_vec()), Vec::<u8>::new());
    let mut c = Client::new(conn, SyncChannels);
    let _ = c.add((), CtcpVersion { version: Line::from_str("v"), source: Line::from_str("s") });
    let _ = c.run();
    let m = c.queue_mut().pop(|_| ());
    let out = m.map(|m| m.to_string()).unwrap_or_else(|| String::from_utf8(c.take_conn().1).unwrap());
    std::process::exit(if out.starts_with("NOTICE a ") { 0 } else { println!("{out}"); 1 });
}
'''),
dict(id="reset-keeps-delay", prop="C29", needs="a client reset while the rate limiter is exhausted",
 breaks="resetting the queue keeps the delay accumulated on the old connection",
 edits=[("src/client/queue.rs", "        self.use_no_labeler();\n        self.timepoint = Instant::now();", "        self.use_no_labeler();\n        self.timepoint = std::cmp::max(self.timepoint, Instant::now());")],
 main='''use vinezombie::{client::queue::Queue, ircmsg::ClientMsg, names::cmd::PING};
fn main() {
    let mut q = Queue::new();
    for _ in 0..20 {
        q.edit().push(ClientMsg::new(PING));
    }
    while q.pop(|_| ()).is_some() {}
    q.reset();
    q.edit().push(ClientMsg::new(PING));
    std::process::exit(if q.pop(|_| ()).is_some() { 0 } else { 1 });
}
'''),
dict(id="sts-alone-requested", prop="C25", needs="strict transport security is the only capability required and the server offers it",
 breaks="sts is requested from the server when it is the only required capability",
 edits=[("src/client/register/handler.rs", "                            reqs.remove(&STS::NAME);\n", "                            if reqs.len() > 1 {\n                                reqs.remove(&STS::NAME);\n                            }\n")],
 main=CLIENT + '''use vinezombie::client::{auth::Clear, register::{register_as_bot, Options}};
use vinezombie::string::{Key, Nick};
fn main() {
    let mut options: Options<Clear> = Options::new();
    options.nicks = vec![Nick::from_str("Me")];
    let mut reg = register_as_bot();
    reg.caps = |_| Box::new(|_: &std::collections::BTreeSet<Key<'_>>| std::collections::BTreeSet::from([Key::from_str("sts")]));
    let conn = Bidir(Cursor::new(b":x CAP * LS :sts=port=6697\\r\\n".to_vec()), Vec::<u8>::new());
    let mut c = Client::new(conn, SyncChannels);
    c.queue_mut().set_rate_limit(std::time::Duration::ZERO, 1);
    let _r = c.add(&reg, &options).unwrap();
    let _ = c.run();
    let mut out = String::new();
    while let Some(m) = c.queue_mut().pop(|_| ()) {
        out.push_str(&m.to_string());
    }
    out.push_str(&String::from_utf8(c.take_conn().1).unwrap());
    std::process::exit(if out.contains("CAP REQ") { println!("{out}"); 1 } else { 0 });
}
'''),
dict(id="utf8-mark-from-range", prop="C08", needs="", breaks="", edits=[], main="") if False else None,
]
S = [s for s in S if s]
