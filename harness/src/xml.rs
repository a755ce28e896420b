//! A small, strict XML reader.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum Xml {
    El(String, BTreeMap<String, String>, Vec<Xml>),
    Text(String),
}

impl Xml {
    pub fn name(&self) -> &str {
        match self {
            Xml::El(n, ..) => n,
            Xml::Text(_) => "",
        }
    }
    pub fn elements(&self) -> impl Iterator<Item = &Xml> {
        let k: &[Xml] = match self {
            Xml::El(_, _, k) => k,
            Xml::Text(_) => &[],
        };
        k.iter().filter(|x| !matches!(x, Xml::Text(_)))
    }
    pub fn all<'a>(&'a self, name: &'a str) -> impl Iterator<Item = &'a Xml> {
        self.elements().filter(move |x| x.name() == name)
    }
    pub fn find(&self, name: &str) -> Option<&Xml> {
        self.elements().find(|x| x.name() == name)
    }
    pub fn attr(&self, name: &str) -> &str {
        match self {
            Xml::El(_, a, _) => a.get(name).map(|s| s.as_str()).unwrap_or(""),
            Xml::Text(_) => "",
        }
    }
    pub fn text(&self) -> String {
        match self {
            Xml::El(_, _, k) => k.iter().map(|x| x.text()).collect(),
            Xml::Text(t) => t.clone(),
        }
    }
    pub fn walk(&self, f: &mut impl FnMut(&Xml)) {
        f(self);
        if let Xml::El(_, _, k) = self {
            k.iter().for_each(|x| x.walk(f));
        }
    }
}

fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        let e = rest[i..].find(';').ok_or("'&' without ';'")? + i;
        let n = &rest[i + 1..e];
        out.push(match n {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let c = match n.strip_prefix("#x") {
                    Some(h) => u32::from_str_radix(h, 16).ok(),
                    None => n.strip_prefix('#').and_then(|d| d.parse().ok()),
                };
                c.and_then(char::from_u32).ok_or(format!("entity &{n};"))?
            }
        });
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    Ok(out)
}

/// The root element; `Err` if the text is not well formed.
pub fn read(s: &str) -> Result<Xml, String> {
    if let Some(c) = s.chars().find(|c| (*c < ' ' && !"\t\n\r".contains(*c)) || *c == '\u{fffe}' || *c == '\u{ffff}') {
        return Err(format!("character {:#x} is not allowed", c as u32));
    }
    let mut stack: Vec<(String, BTreeMap<String, String>, Vec<Xml>)> = vec![(String::new(), BTreeMap::new(), vec![])];
    let mut rest = s;
    while !rest.is_empty() {
        let Some(i) = rest.find('<') else {
            stack.last_mut().unwrap().2.push(Xml::Text(unescape(rest)?));
            break;
        };
        if i > 0 {
            stack.last_mut().unwrap().2.push(Xml::Text(unescape(&rest[..i])?));
        }
        rest = &rest[i..];
        if rest.starts_with("<?") {
            rest = &rest[rest.find("?>").ok_or("open declaration")? + 2..];
            continue;
        }
        let e = rest.find('>').ok_or("open tag")?;
        let (mut tag, own) = match rest[1..e].strip_suffix('/') {
            Some(t) => (t, true),
            None => (&rest[1..e], false),
        };
        rest = &rest[e + 1..];
        if let Some(n) = tag.strip_prefix('/') {
            let (name, at, k) = stack.pop().unwrap();
            if name != n.trim() || stack.is_empty() {
                return Err(format!("</{n}> closes <{name}>"));
            }
            stack.last_mut().unwrap().2.push(Xml::El(name, at, k));
            continue;
        }
        let n = tag.find(char::is_whitespace).unwrap_or(tag.len());
        let name = tag[..n].to_string();
        tag = tag[n..].trim();
        let mut at = BTreeMap::new();
        while !tag.is_empty() {
            let (k, v) = tag.split_once('=').ok_or("attribute without value")?;
            let v = v.strip_prefix('"').ok_or("attribute without quotes")?;
            let (v, r) = v.split_once('"').ok_or("open attribute")?;
            if at.insert(k.to_string(), unescape(v)?).is_some() {
                return Err(format!("attribute {k} twice"));
            }
            tag = r.trim_start();
        }
        if own {
            stack.last_mut().unwrap().2.push(Xml::El(name, at, vec![]));
        } else {
            stack.push((name, at, vec![]));
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is not closed", stack.last().unwrap().0));
    }
    stack.pop().unwrap().2.into_iter().find(|x| !matches!(x, Xml::Text(_))).ok_or("no element".into())
}
