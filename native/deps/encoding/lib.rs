//! Stand-in for `encoding`: strict UTF-8 decoding, a byte order mark selecting the encoding.
pub enum DecoderTrap { Strict }
pub struct Utf8;
pub mod all { pub const UTF_8: super::Utf8 = super::Utf8; }
pub fn decode(b: &[u8], _: DecoderTrap, _: Utf8) -> (Result<String, String>, ()) {
    let b = b.strip_prefix(b"\xEF\xBB\xBF").unwrap_or(b);
    let utf16 = |f: fn([u8; 2]) -> u16| String::from_utf16(&b[2..].chunks(2).map(|x| f([x[0], *x.get(1).unwrap_or(&0)])).collect::<Vec<_>>());
    let r = if b.starts_with(b"\xFE\xFF") { utf16(u16::from_be_bytes).map_err(|_| "invalid sequence".to_string()) }
    else if b.starts_with(b"\xFF\xFE") { utf16(u16::from_le_bytes).map_err(|_| "invalid sequence".to_string()) }
    else { String::from_utf8(b.to_vec()).map_err(|_| "invalid sequence".to_string()) };
    (r, ())
}
