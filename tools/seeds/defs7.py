"""Planted bugs, seventh round."""
from defs import seed, HEAD, R, B, S, E, C, F, Y, A, RT, ACTIX

seed("C07-no-eof-probe", "C07", "a source longer than declared that is read in pieces ending exactly at the declared size",
 "an entry counts as done when its declared size was read, so what its source has beyond that is not noticed",
 [(R, "        if output.remaining() == remaining_before_poll {", """        let read_now = (remaining_before_poll - output.remaining()) as u64;
        if read_now > 0 && self.chunk_processed_size + read_now == entry.size {
            // That's all, no need to ask for the end
            self.chunk_processed_size = entry.size;
            if entry.crc32.is_none() {
                entry.crc32 = file_reader.get_crc32();
                pinned.set(ReaderPinned::Nothing);
                return Poll::Ready(Ok(true));
            }
            return Poll::Ready(Ok(false));
        }

        if output.remaining() == remaining_before_poll {""")],
 HEAD + r'''
fn main() {
    let mut r = Box::pin(builder(&[("a", src(b"hello, world").declare(5))]).build());
    let (_, e) = read_to_end(r.as_mut(), 1);
    assert!(e.is_some());
}
''')

seed("C20-midnight", "C20", "the time 24:00:00",
 "24:00:00 is accepted as the end of the day and recorded as the hour 24",
 [(S, "        if hour > 23 {", "        if hour > 23 && (hour, minute, second) != (24, 0, 0) {")],
 HEAD + r'''
fn main() {
    let mut b = builder(&[]);
    let e = b.add_entry("a".to_string(), src(b"")).unwrap();
    assert!(e.datetime_fields(2000, 1, 1, 24, 0, 0).is_none());
}
''')

seed("C13-many-dirs", "C13", "a directory with more than 512 subdirectories",
 "at most 512 directories wait for being listed, what is in others is left out silently",
 [(F, """                if metadata.is_dir() {
                    stack.push(path.clone());""", """                if metadata.is_dir() && stack.len() < 512 {
                    stack.push(path.clone());""")],
 HEAD + RT + r'''
fn main() {
    let d = std::path::PathBuf::from(std::env::var("DEMO_DIR").unwrap());
    for i in 0..520 {
        std::fs::create_dir(d.join(i.to_string())).unwrap();
        std::fs::write(d.join(format!("{i}/f")), b"x").unwrap();
    }
    let mut b = Builder::new();
    rt(b.add_directory_recursive(d, None)).unwrap();
    assert_eq!(b.get_entries().len(), 1040);
}
''')
