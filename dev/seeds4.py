S = [
dict(id="secret-short-read", prop="C10", needs="reading into a secret buffer from a source that ends before the expected number of bytes",
 breaks="the buffer counts the bytes it expected as put in, although fewer were read",
 edits=[("src/string/secretbuf.rs", "        self.len += bytes_read;\n        Ok(bytes_read)", "        self.len += if bytes_read == 0 { 0 } else { expect };\n        Ok(bytes_read)")],
 main='''use vinezombie::string::SecretBuf;
fn main() {
    let mut b = SecretBuf::with_capacity(32);
    let n = b.read_from(16, &mut std::io::Cursor::new(b"hunter2".to_vec())).unwrap();
    let ok = n == 7 && b.as_ref() == b"hunter2".as_slice();
    std::process::exit(if ok { 0 } else { 1 });
}
'''),
dict(id="hash-no-length", prop="C11", needs="looking up a byte slice in a hash map keyed by strings",
 breaks="a string hashes without its length, unlike the byte slice it borrows as, so the lookup misses",
 edits=[("src/string/bytes.rs", "        self.value.hash(hasher);", "        hasher.write(self.value);")],
 main='''use std::collections::HashMap;
use vinezombie::string::Bytes;
fn main() {
    let mut m: HashMap<Bytes<'static>, u8> = HashMap::new();
    m.insert(Bytes::from("chan"), 1);
    let k: &[u8] = b"chan";
    std::process::exit(if m.get(k) == Some(&1) { 0 } else { 1 });
}
'''),
]
S = [s for s in S if s["edits"]]
