//! A minimal XML element-tree reader for the metadata files (independent of
//! the library's loader).  Handles declarations, DOCTYPE with an internal
//! subset, comments, attributes, text and the five predefined entities.

#[derive(Clone, Debug, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    pub text: String,
}

impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    pub fn kid(&self, n: &str) -> Option<&El> {
        self.kids.iter().find(|k| k.name == n)
    }
    pub fn kids<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a El> + 'a {
        self.kids.iter().filter(move |k| k.name == n)
    }
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let Some(e) = rest[i..].find(';') else { break };
        let name = &rest[i + 1..i + e];
        let c = match name {
            "lt" => Some('<'),
            "gt" => Some('>'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            "amp" => Some('&'),
            _ => match name.strip_prefix("#x") {
                Some(h) => u32::from_str_radix(h, 16).ok(),
                None => name.strip_prefix('#').and_then(|d| d.parse().ok()),
            }
            .and_then(char::from_u32),
        };
        match c {
            Some(c) => out.push(c),
            None => out.push_str(&rest[i..=i + e]),
        }
        rest = &rest[i + e + 1..];
    }
    out + rest
}

pub fn parse(s: &str) -> Result<El, String> {
    let mut stack: Vec<El> = vec![El::default()];
    let mut i = 0;
    while i < s.len() {
        let r = &s[i..];
        if r.starts_with("<!--") {
            i += r.find("-->").ok_or("comment")? + 3;
        } else if r.starts_with("<![CDATA[") {
            let e = r.find("]]>").ok_or("cdata")?;
            stack.last_mut().unwrap().text.push_str(&r[9..e]);
            i += e + 3;
        } else if r.starts_with("<?") {
            i += r.find("?>").ok_or("pi")? + 2;
        } else if r.starts_with("<!DOCTYPE") {
            let b = r.find('[').ok_or("doctype")?;
            let e = r[b..].find("]>").ok_or("doctype end")?;
            i += b + e + 2;
        } else if r.starts_with("</") {
            let e = r.find('>').ok_or("tag")?;
            let name = r[2..e].trim();
            let el = stack.pop().unwrap();
            if el.name != name || stack.is_empty() {
                return Err(format!("mismatched </{name}>"));
            }
            stack.last_mut().unwrap().kids.push(el);
            i += e + 1;
        } else if r.starts_with('<') {
            // attributes may contain '>' only quoted
            let b = r.as_bytes();
            let mut j = 1;
            let mut q = 0u8;
            while j < b.len() && (q != 0 || b[j] != b'>') {
                if q != 0 {
                    if b[j] == q {
                        q = 0;
                    }
                } else if b[j] == b'"' || b[j] == b'\'' {
                    q = b[j];
                }
                j += 1;
            }
            if j >= b.len() {
                return Err("tag end".into());
            }
            let mut body = &r[1..j];
            let empty = body.ends_with('/');
            if empty {
                body = &body[..body.len() - 1];
            }
            let ne = body.find(char::is_whitespace).unwrap_or(body.len());
            let mut el = El { name: body[..ne].to_string(), ..Default::default() };
            let mut rest = body[ne..].trim_start();
            while !rest.is_empty() {
                let eq = rest.find('=').ok_or("attr")?;
                let name = rest[..eq].trim().to_string();
                rest = rest[eq + 1..].trim_start();
                let q = rest.chars().next().ok_or("attr")?;
                let e = rest[1..].find(q).ok_or("attr quote")?;
                el.attrs.push((name, unescape(&rest[1..1 + e])));
                rest = rest[e + 2..].trim_start();
            }
            if empty {
                stack.last_mut().unwrap().kids.push(el);
            } else {
                stack.push(el);
            }
            i += j + 1;
        } else {
            let e = r.find('<').unwrap_or(r.len());
            stack.last_mut().unwrap().text.push_str(&unescape(&r[..e]));
            i += e;
        }
    }
    if stack.len() != 1 {
        return Err("unclosed".into());
    }
    let mut root = stack.pop().unwrap();
    if root.kids.len() != 1 {
        return Err("root".into());
    }
    Ok(root.kids.pop().unwrap())
}
