//! Just enough JSON.

pub fn quote(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn unescape(s: &str) -> String {
    let s = s.strip_prefix('"').and_then(|x| x.strip_suffix('"')).unwrap_or(s);
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = (0..4).filter_map(|_| it.next()).collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

/// The string value of `"key": "..."` in a flat JSON object.
pub fn get_str(body: &str, key: &str) -> Option<String> {
    let k = format!("\"{}\"", key);
    let at = body.find(&k)? + k.len();
    let rest = body[at..].trim_start().strip_prefix(':')?.trim_start();
    let rest = rest.strip_prefix('"')?;
    let mut end = 0;
    let b = rest.as_bytes();
    while end < b.len() && b[end] != b'"' {
        if b[end] == b'\\' {
            end += 1;
        }
        end += 1;
    }
    Some(unescape(&rest[..end]))
}
