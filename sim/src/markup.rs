//! Reads the static markup as a browser's HTML parser would: style elements are raw text.
/// (attribute value of data-style, raw CSS text) of each style element, in order.
pub fn styles(html: &str) -> Result<Vec<(String, String)>, String> {
    let mut out = vec![];
    let mut rest = html;
    while !rest.is_empty() {
        let r = rest.strip_prefix("<style").ok_or_else(|| format!("text outside a style element: {:?}", &rest.chars().take(60).collect::<String>()))?;
        let (attrs, r) = attributes(r)?;
        if attrs.len() != 1 || attrs[0].0 != "data-style" {
            return Err(format!("attributes {attrs:?}"));
        }
        let end = raw_text_end(r).ok_or("style element never ends")?;
        let css = r[..end].to_string();
        // </style followed by attributes and >
        let close = r[end..].find('>').ok_or("end tag never ends")?;
        out.push((attrs[0].1.clone(), css));
        rest = &r[end + close + 1..];
    }
    Ok(out)
}
fn raw_text_end(s: &str) -> Option<usize> {
    let l = s.to_ascii_lowercase();
    let mut at = 0;
    while let Some(i) = l[at..].find("</style") {
        let i = at + i;
        match l[i + 7..].chars().next() {
            Some('\t' | '\n' | '\x0c' | '\r' | ' ' | '/' | '>') => return Some(i),
            _ => at = i + 7,
        }
    }
    None
}
/// Parses attributes up to and including '>'.
fn attributes(mut s: &str) -> Result<(Vec<(String, String)>, &str), String> {
    let mut out = vec![];
    loop {
        s = s.trim_start_matches([' ', '\n', '\t', '\x0c', '\r']);
        if let Some(r) = s.strip_prefix('>') {
            return Ok((out, r));
        }
        let e = s.find(['=', '>', ' ']).ok_or("tag never ends")?;
        let name = s[..e].to_ascii_lowercase();
        s = &s[e..];
        if let Some(r) = s.strip_prefix("=\"") {
            let e = r.find('"').ok_or("attribute never ends")?;
            out.push((name, entities(&r[..e])));
            s = &r[e + 1..];
        } else if s.starts_with('=') {
            let e = s.find([' ', '>']).ok_or("attribute never ends")?;
            out.push((name, entities(&s[1..e])));
            s = &s[e..];
        } else {
            out.push((name, String::new()));
        }
    }
}
fn entities(s: &str) -> String {
    s.replace("&quot;", "\"").replace("&lt;", "<").replace("&gt;", ">").replace("&#x27;", "'").replace("&amp;", "&")
}
/// Undoes CSS escapes that do not change meaning inside strings and identifiers (`\<` is `<`).
pub fn unescape(css: &str) -> String {
    let mut o = String::new();
    let c: Vec<char> = css.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() {
            let n = c[i + 1];
            if n.is_ascii_hexdigit() {
                let mut j = i + 1;
                let mut v = 0u32;
                while j < c.len() && j < i + 7 && c[j].is_ascii_hexdigit() {
                    v = v * 16 + c[j].to_digit(16).unwrap();
                    j += 1;
                }
                if j < c.len() && c[j].is_ascii_whitespace() {
                    j += 1;
                }
                let ch = char::from_u32(v).unwrap_or('\u{fffd}');
                if ch == '"' || ch == '\\' || ch == '\'' {
                    o.push('\\');
                }
                o.push(ch);
                i = j;
                continue;
            }
            if n == '"' || n == '\'' || n == '\\' || n == '\n' {
                o.push('\\');
            }
            o.push(n);
            i += 2;
            continue;
        }
        o.push(c[i]);
        i += 1;
    }
    o
}
