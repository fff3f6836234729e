//! Quake text as people read it, written from the character set (independent of quake_text).
pub fn readable_byte(b: u8) -> char {
    match b & 0x7f {
        0x10 => '[',
        0x11 => ']',
        c @ 0x12..=0x1b => (b'0' + (c - 0x12)) as char,
        c @ 0x20..=0x7e => c as char,
        0x00 | 0x05 | 0x0e | 0x0f | 0x1c => '\u{2022}',
        _ => ' ',
    }
}
pub fn readable(b: &[u8]) -> String {
    b.iter().map(|b| readable_byte(*b)).collect()
}
/// sort key of names: readable, without case
pub fn key(s: &str) -> String {
    s.chars().map(|c| readable_byte(c as u32 as u8)).map(|c| c.to_ascii_lowercase()).collect()
}
/// whether `list` is sorted by key and has exactly the elements of `want`
pub fn sorted_permutation(list: &[String], want: &[String]) -> bool {
    let (mut a, mut b) = (list.to_vec(), want.to_vec());
    a.sort();
    b.sort();
    a == b && list.windows(2).all(|w| key(&w[0]) <= key(&w[1]))
}
