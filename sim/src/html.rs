//! Reads server-rendered HTML, without any code under test.
use std::collections::HashMap;

#[derive(Debug, Default)]
pub struct El {
    pub tag: String,
    pub attrs: HashMap<String, String>,
    pub kids: Vec<El>,
    /// Raw text directly inside (entities decoded, except in script and style).
    pub text: String,
}
impl El {
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
        f(self);
        self.kids.iter().for_each(|k| k.walk(f));
    }
}
fn entities(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#x27;", "'").replace("&#x2F;", "/").replace("&amp;", "&")
}
const VOID: &[&str] = &["br", "hr", "img", "input", "meta", "link"];
pub fn read(html: &str) -> Result<El, String> {
    let mut stack = vec![El { tag: "root".into(), ..Default::default() }];
    let mut rest = html;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let e = r.find("-->").ok_or("unterminated comment")?;
            rest = &r[e + 3..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("unterminated end tag")?;
            let name = r[..e].trim();
            rest = &r[e + 1..];
            let el = stack.pop().unwrap();
            if el.tag != name || stack.is_empty() {
                return Err(format!("</{name}> closes <{}>", el.tag));
            }
            stack.last_mut().unwrap().kids.push(el);
        } else if rest.starts_with('<') {
            let mut el = El::default();
            let b = rest.as_bytes();
            let mut i = 1;
            while i < b.len() && !b" \t\n/>".contains(&b[i]) {
                i += 1;
            }
            el.tag = rest[1..i].to_string();
            loop {
                while i < b.len() && b" \t\n/".contains(&b[i]) {
                    i += 1;
                }
                if i >= b.len() {
                    return Err("unterminated tag".into());
                }
                if b[i] == b'>' {
                    i += 1;
                    break;
                }
                let s = i;
                while i < b.len() && !b" \t\n/>=".contains(&b[i]) {
                    i += 1;
                }
                let name = rest[s..i].to_string();
                let mut val = String::new();
                if i < b.len() && b[i] == b'=' {
                    i += 1;
                    if i < b.len() && (b[i] == b'"' || b[i] == b'\'') {
                        let q = b[i] as char;
                        let e = rest[i + 1..].find(q).ok_or("unterminated attribute")?;
                        val = entities(&rest[i + 1..i + 1 + e]);
                        i += e + 2;
                    }
                }
                el.attrs.insert(name, val);
            }
            rest = &rest[i..];
            if VOID.contains(&el.tag.as_str()) {
                stack.last_mut().unwrap().kids.push(el);
            } else if el.tag == "script" || el.tag == "style" {
                let end = format!("</{}", el.tag);
                let e = rest.find(&end).ok_or("unterminated raw text")?;
                el.text = rest[..e].to_string();
                rest = &rest[e..];
                stack.push(el);
            } else {
                stack.push(el);
            }
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            stack.last_mut().unwrap().text.push_str(&entities(&rest[..e]));
            rest = &rest[e..];
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is not closed", stack.last().unwrap().tag));
    }
    Ok(stack.pop().unwrap())
}
pub fn base64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in s.trim_end_matches('=').bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    Some(out)
}
