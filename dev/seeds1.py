S = [
dict(id="builder-push-space", prop="C02", needs="pushing a single byte that the builder's string type forbids but that is not a control character",
 breaks="Builder::try_push only rejects invalid control characters, so a Word can be built with a space in it",
 edits=[("src/string/builder.rs", "if T::is_invalid(&byte) {\n            Err", "if byte.is_ascii_control() && T::is_invalid(&byte) {\n            Err")],
 main='''use vinezombie::string::{Builder, Word};
fn main() {
    let mut b = Builder::<Word>::default();
    let _ = b.try_push(b'a');
    let r = b.try_push(b' ');
    std::process::exit(if r.is_err() { 0 } else { 1 });
}
'''),
dict(id="rfc1459-strict-caret", prop="C03", needs="strict RFC1459 casemapping of a string containing a caret",
 breaks="the strict RFC1459 casemap also maps '^' to '~'",
 edits=[("src/string/tf/casemap.rs", "b'['..=b']'", "b'['..=b'^'")],
 main='''use vinezombie::string::{Word, tf::IrcCasemap};
fn main() {
    let mut w = Word::from_str("a^[b");
    w.transform(IrcCasemap::Rfc1459Strict);
    std::process::exit(if w.as_bytes() == b"a^{b" { 0 } else { 1 });
}
'''),
dict(id="unescape-double-backslash", prop="C04", needs="a tag value with an escaped backslash followed by a character that forms an escape",
 breaks="an escaped backslash is treated as the start of another escape, so values do not survive the round trip",
 edits=[("src/string/tf/escape.rs", "            esc = false;\n", "            esc = *byte == b'\\\\';\n")],
 main='''use vinezombie::string::NoNul;
use vinezombie::string::tf::{escape, unescape};
fn main() {
    let v = NoNul::from_str("x;a\\\\:b\\\\n");
    let e = escape(v.clone());
    let u = unescape(e);
    std::process::exit(if v == u { 0 } else { 1 });
}
'''),
]
