S = [
dict(id="sasl-empty-mechanism", prop="C15", needs="a server advertising a sasl mechanism list with an empty entry (sasl=PLAIN,,EXTERNAL)",
 breaks="the mechanism list loop does not step over the comma after an empty name, so it never ends",
 edits=[("src/names/cap.rs", "                names.insert(name);\n            }\n            splitter.next_byte();", "                names.insert(name);\n                splitter.next_byte();\n            }")],
 main='''use vinezombie::names::{cap::SASL, NameValued};
use vinezombie::string::{Key, Word};
fn main() {
    let u = (Key::from_str("sasl"), Word::from_str("PLAIN,,EXTERNAL"));
    let _ = std::hint::black_box(<SASL as NameValued<_>>::from_union(&u));
}
'''),
dict(id="trim-formfeed", prop="C15", needs="trimming the start of a string that has a form feed there",
 breaks="the loop that trims the start skips form feeds without taking them off, so it never ends",
 edits=[("src/string/tf/trim.rs", "            while let Some((last, rest)) = slice.split_first() {\n                if last.is_ascii_whitespace() {", "            while let Some((last, rest)) = slice.split_first() {\n                if *last == b'\\x0c' && self.0 == StringSide::Start {\n                    continue;\n                }\n                if last.is_ascii_whitespace() {")],
 main='''use vinezombie::string::{tf::{StringSide, TrimAscii}, Bytes};
fn main() {
    let mut b = Bytes::from("\\x0cword");
    b.transform(TrimAscii(StringSide::Start));
    std::process::exit(if b == b"word".as_slice() { 0 } else { 1 });
}
'''),
]
